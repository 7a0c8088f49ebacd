From 3f5e9c59f3be9bcd1e96f225d6349e347019c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 01/30] fix: link deep aggregations through named relationships
 and handle no rows left by use_previous

---
 .../feature_set_calculator.py                 | 52 ++++++++++---------
 featuretools/utils/gen_utils.py               |  2 +-
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 88cd33e..dd6c7a7 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -597,8 +597,35 @@ class FeatureSetCalculator(object):
         if where is not None and not base_frame_empty:
             base_frame = base_frame.loc[base_frame[where.get_name()]]
 
-        # when no child data, just add all the features to frame with nan
+        relationship_path = test_feature.relationship_path
+
+        groupby_var = get_relationship_variable_id(relationship_path)
+
+        # if the use_previous property exists on this feature, include only the
+        # instances from the child entity included in that Timedelta
+        use_previous = test_feature.use_previous
         base_frame_empty = base_frame.empty if isinstance(base_frame, pd.DataFrame) else False
+        if use_previous and not base_frame_empty:
+            # Filter by use_previous values
+            time_last = self.time_last
+            if use_previous.has_no_observations():
+                time_first = time_last - use_previous
+                ti = child_entity.time_index
+                if ti is not None:
+                    base_frame = base_frame[base_frame[ti] >= time_first]
+            else:
+                n = use_previous.get_value('o')
+
+                def last_n(df):
+                    return df.iloc[-n:]
+
+                base_frame = base_frame.groupby(groupby_var, observed=True, sort=False).apply(last_n)
+
+        # when no child data is left (or none of it is linked to an instance),
+        # just add all the features to frame with nan
+        base_frame_empty = False
+        if isinstance(base_frame, pd.DataFrame):
+            base_frame_empty = base_frame.empty or base_frame[groupby_var].isnull().all()
         if base_frame_empty:
             feature_values = []
             for f in features:
@@ -606,29 +633,6 @@ class FeatureSetCalculator(object):
                 progress_callback(1 / float(self.num_features))
             frame = update_feature_columns(feature_values, frame)
         else:
-            relationship_path = test_feature.relationship_path
-
-            groupby_var = get_relationship_variable_id(relationship_path)
-
-            # if the use_previous property exists on this feature, include only the
-            # instances from the child entity included in that Timedelta
-            use_previous = test_feature.use_previous
-            if use_previous:
-                # Filter by use_previous values
-                time_last = self.time_last
-                if use_previous.has_no_observations():
-                    time_first = time_last - use_previous
-                    ti = child_entity.time_index
-                    if ti is not None:
-                        base_frame = base_frame[base_frame[ti] >= time_first]
-                else:
-                    n = use_previous.get_value('o')
-
-                    def last_n(df):
-                        return df.iloc[-n:]
-
-                    base_frame = base_frame.groupby(groupby_var, observed=True, sort=False).apply(last_n)
-
             to_agg = {}
             agg_rename = {}
             to_apply = set()
diff --git a/featuretools/utils/gen_utils.py b/featuretools/utils/gen_utils.py
index 9f35e1b..7ed11bb 100644
--- a/featuretools/utils/gen_utils.py
+++ b/featuretools/utils/gen_utils.py
@@ -26,7 +26,7 @@ def get_relationship_variable_id(path):
     child_link_name = r.child_variable.id
     for _, r in path[1:]:
         parent_link_name = child_link_name
-        child_link_name = '%s.%s' % (r.parent_entity.id,
+        child_link_name = '%s.%s' % (r.parent_name,
                                      parent_link_name)
     return child_link_name
 
-- 
2.43.0


From 1253c785d90c826bdf141d917feb3de495aa0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 02/30] fix: last time indexes follow every relationship, keep
 real times over missing ones and support numeric time

---
 featuretools/entityset/entityset.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 18ad9a4..44cf7df 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -771,10 +771,10 @@ class EntitySet(object):
         """
         # Generate graph of entities to find leaf entities
         children = defaultdict(list)  # parent --> child mapping
-        child_vars = defaultdict(dict)
+        child_vars = defaultdict(list)  # parent --> (child, link variable)
         for r in self.relationships:
             children[r.parent_entity.id].append(r.child_entity)
-            child_vars[r.parent_entity.id][r.child_entity.id] = r.child_variable
+            child_vars[r.parent_entity.id].append((r.child_entity, r.child_variable))
 
         updated_entities = updated_entities or []
         if updated_entities:
@@ -843,11 +843,11 @@ class EntitySet(object):
                     continue
 
                 # updated last time from all children
-                for child_e in child_entities:
+                for child_e, child_var in child_vars[entity.id]:
                     # TODO: Figure out if Dask code related to indexes is important for Koalas
                     if child_e.last_time_index is None:
                         continue
-                    link_var = child_vars[entity.id][child_e.id].id
+                    link_var = child_var.id
 
                     lti_is_dask = isinstance(child_e.last_time_index, dd.Series)
                     lti_is_koalas = is_instance(child_e.last_time_index, ks, 'Series')
@@ -874,7 +874,8 @@ class EntitySet(object):
 
                         # sort by time and keep only the most recent
                         lti_df.sort_values(['last_time', entity.index],
-                                           kind="mergesort", inplace=True)
+                                           kind="mergesort", na_position='first',
+                                           inplace=True)
 
                         lti_df.drop_duplicates(entity.index,
                                                keep='last',
@@ -892,6 +893,8 @@ class EntitySet(object):
                             lti_df['last_time_old'] = ks.to_datetime(lti_df['last_time_old'])
                             # TODO: Figure out a workaround for fillna and replace
                             lti_df = lti_df.max(axis=1)
+                        elif self.time_type == vtypes.NumericTimeIndex:
+                            lti_df = lti_df.astype('float64').max(axis=1)
                         else:
                             lti_df['last_time'] = lti_df['last_time'].astype('datetime64[ns]')
                             lti_df['last_time_old'] = lti_df['last_time_old'].astype('datetime64[ns]')
-- 
2.43.0


From 1954527644370a47776ca1cebf8aad2c669fd771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 03/30] fix: compute multi-output features before features that
 use one of their outputs

---
 featuretools/computational_backends/feature_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 776c5d6..62c51a8 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -183,6 +183,9 @@ class FeatureSet(object):
             if not f.relationship_path:
                 dependencies = f.get_dependencies()
                 for dep in dependencies:
+                    # the whole feature is calculated, not one of its outputs
+                    if isinstance(dep, FeatureOutputSlice):
+                        dep = dep.base_feature
                     order[dep.unique_name()] = \
                         min(order[f.unique_name()] - 1, order[dep.unique_name()])
                     queue.append(dep)
-- 
2.43.0


From 0762124f470c088b0bc8e7a33dd4157db949280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 04/30] fix: group aggregations with multi-unit use_previous
 separately

---
 featuretools/computational_backends/feature_set.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 62c51a8..4b8320e 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -206,16 +206,11 @@ class FeatureSet(object):
 # These functions are used for sorting and grouping features
 
 
-def _get_use_previous(f):  # TODO Sort and group features for DateOffset with two different temporal values
+def _get_use_previous(f):
     if isinstance(f, AggregationFeature) and f.use_previous is not None:
-        if len(f.use_previous.times.keys()) > 1:
-            return ("", -1)
-        else:
-            unit = list(f.use_previous.times.keys())[0]
-            value = f.use_previous.times[unit]
-            return (unit, value)
+        return tuple(sorted(f.use_previous.times.items()))
     else:
-        return ("", -1)
+        return ()
 
 
 def _get_where(f):
-- 
2.43.0


From 60ae068049bffac8691a5dd2adc0364ee3212b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 05/30] fix: check observation timedeltas against numeric time
 columns

---
 featuretools/utils/wrangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 7166a70..d4e7c65 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -94,7 +94,7 @@ def _check_time_against_column(time, time_column):
     elif isinstance(time, Timedelta):
         return (isinstance(time_column, (variable_types.Datetime, variable_types.DatetimeTimeIndex)) or
                 (isinstance(time_column, (variable_types.Ordinal, variable_types.Numeric, variable_types.TimeIndex)) and
-                 time.unit not in Timedelta._time_units))
+                 not time.has_no_observations()))
     else:
         return False
 
-- 
2.43.0


From 51af6a95d8d9b8b27518b2fa2df3a77f771acd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 06/30] fix: timedelta units in capitals, singular names and
 milliseconds in multi-unit timedeltas

---
 featuretools/entityset/timedelta.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index 5b6f4da..15174e1 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -83,9 +83,9 @@ class Timedelta(object):
 
     @classmethod
     def _check_unit_plural(cls, s):
-        if len(s) > 2 and not s.endswith('s'):
+        if len(s) > 2 and not s.endswith(('s', 'S')):
             return (s + 's').lower()
-        elif len(s) > 1:
+        elif len(s) > 1 or s.lower() in cls._readable_units:
             return s.lower()
         return s
 
@@ -108,6 +108,9 @@ class Timedelta(object):
             return pd.Timedelta(self.times[all_units[0]], all_units[0])
         else:
             readable_times = self.lower_readable_times()
+            if 'milliseconds' in readable_times:
+                # relativedelta has no milliseconds
+                readable_times['microseconds'] = readable_times.pop('milliseconds') * 1000
             return relativedelta(**readable_times)
 
     def check_value(self, value, unit):
@@ -142,9 +145,10 @@ class Timedelta(object):
             return "{} {}".format(self.times[all_units[0]], self._readable_units[all_units[0]])
         final_str = ""
         for unit, value in self.times.items():
+            readable_unit = self._readable_units[unit]
             if value == 1:
-                unit = self.make_singular(unit)
-            final_str += "{} {} ".format(value, self._readable_units[unit])
+                readable_unit = self.make_singular(readable_unit)
+            final_str += "{} {} ".format(value, readable_unit)
         return final_str[:-1]
 
     def get_arguments(self):
-- 
2.43.0


From ab4aa9f39e3f29fa886348089b07e372e63bbd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 07/30] fix: round cutoff times down for integer and multi-unit
 approximation windows

---
 featuretools/computational_backends/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 0fc4d59..7eee170 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -23,7 +23,7 @@ logger = logging.getLogger('featuretools.computational_backend')
 def bin_cutoff_times(cutoff_time, bin_size):
     binned_cutoff_time = cutoff_time.copy()
     if type(bin_size) == int:
-        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x / bin_size * bin_size)
+        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x // bin_size * bin_size)
     else:
         bin_size = _check_timedelta(bin_size)
         binned_cutoff_time['time'] = datetime_round(binned_cutoff_time['time'], bin_size)
@@ -59,7 +59,6 @@ def datetime_round(dt, freq):
     if not freq.is_absolute():
         raise ValueError("Unit is relative")
 
-    # TODO: multitemporal units
     all_units = list(freq.times.keys())
     if len(all_units) == 1:
         unit = all_units[0]
@@ -71,9 +70,10 @@ def datetime_round(dt, freq):
             unit = 'd'
             value = value * 7
         freq = str(value) + unit
-        return dt.dt.floor(freq)
     else:
-        assert "Frequency cannot have multiple temporal parameters"
+        freq = sum([pd.Timedelta(value, unit) for unit, value in freq.times.items()],
+                   pd.Timedelta(0))
+    return dt.dt.floor(freq)
 
 
 def gather_approximate_features(feature_set):
-- 
2.43.0


From 0da3f8393a95811c35ee4e27ab4d19b9b572aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 08/30] fix: default rows for unknown instances requested at
 several cutoffs of one approximation window

---
 .../computational_backends/feature_set_calculator.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index dd6c7a7..fff915b 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -126,10 +126,11 @@ class FeatureSetCalculator(object):
         # and is not currently supported for Dask dataframes.
         if isinstance(df, pd.DataFrame):
             index_dtype = df.index.dtype.name
+            unique_instance_ids = pd.unique(instance_ids)
             if df.empty:
-                return self.generate_default_df(instance_ids=instance_ids)
+                return self.generate_default_df(instance_ids=unique_instance_ids)
 
-            missing_ids = [i for i in instance_ids if i not in
+            missing_ids = [i for i in unique_instance_ids if i not in
                            df[target_entity.index]]
             if missing_ids:
                 default_df = self.generate_default_df(instance_ids=missing_ids,
@@ -140,7 +141,6 @@ class FeatureSetCalculator(object):
             df.index.name = self.entityset[self.feature_set.target_eid].index
 
             # Order by instance_ids
-            unique_instance_ids = pd.unique(instance_ids)
             unique_instance_ids = unique_instance_ids.astype(instance_ids.dtype)
             df = df.reindex(unique_instance_ids)
 
-- 
2.43.0


From e3bfd3ace14ee5b320f1f78724dd4c7ecc98cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 09/30] fix: group-by features leave the caller's list of
 inputs alone and keep inputs equal to the groupby

---
 featuretools/feature_base/feature_base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 4899143..21ca307 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -689,7 +689,7 @@ class GroupByTransformFeature(TransformFeature):
         self.groupby = groupby
 
         if hasattr(base_features, '__iter__'):
-            base_features.append(groupby)
+            base_features = list(base_features) + [groupby]
         else:
             base_features = [base_features, groupby]
 
@@ -726,8 +726,7 @@ class GroupByTransformFeature(TransformFeature):
 
     def get_arguments(self):
         # Do not include groupby in base_features.
-        feature_names = [feat.unique_name() for feat in self.base_features
-                         if feat.unique_name() != self.groupby.unique_name()]
+        feature_names = [feat.unique_name() for feat in self.base_features[:-1]]
         return {
             'name': self._name,
             'base_features': feature_names,
-- 
2.43.0


From c805fa4e16623ba530065ea08ada339ac93b5615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 10/30] fix: name every output of approximated features when no
 instance has data

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 7eee170..f730433 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -110,7 +110,7 @@ def gather_approximate_features(feature_set):
 
 
 def gen_empty_approx_features_df(approx_features):
-    df = pd.DataFrame(columns=[f.get_name() for f in approx_features])
+    df = pd.DataFrame(columns=[name for f in approx_features for name in f.get_feature_names()])
     df.index.name = approx_features[0].entity.index
     return df
 
-- 
2.43.0


From 88dfe2a8c5007293c07ecdba46243e330f23eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 11/30] fix: deep comparison compares the data, and entitysets
 with more relationships are not equal

---
 featuretools/entityset/entityset.py |  2 ++
 featuretools/utils/wrangle.py       | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 44cf7df..f33bcfb 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -117,6 +117,8 @@ class EntitySet(object):
                 return False
             if not e.__eq__(other[eid], deep=deep):
                 return False
+        if len(self.relationships) != len(other.relationships):
+            return False
         for r in self.relationships:
             if r not in other.relationships:
                 return False
diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index d4e7c65..34198f3 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -4,6 +4,7 @@ from datetime import datetime
 
 import numpy as np
 import pandas as pd
+from pandas.api.types import is_categorical_dtype
 
 from featuretools import variable_types
 from featuretools.entityset.timedelta import Timedelta
@@ -114,17 +115,24 @@ def _check_time_type(time):
 
 def _dataframes_equal(df1, df2):
     # ^ means XOR
-    df1_empty = bool(len(df1))
-    df2_empty = bool(len(df2))
+    df1_empty = not len(df1)
+    df2_empty = not len(df2)
     if df1_empty ^ df2_empty:
         return False
     elif not df1_empty and not df2_empty:
         if not set(df1.columns) == set(df2.columns):
             return False
+        if not df1.index.equals(df2.index):
+            return False
 
         for c in df1:
             df1c = df1[c]
             df2c = df2[c]
+            null1 = pd.isnull(df1c)
+            null2 = pd.isnull(df2c)
+            if is_categorical_dtype(df1c) or is_categorical_dtype(df2c):
+                df1c = df1c.astype(object)
+                df2c = df2c.astype(object)
             if df1c.dtype == object:
                 df1c = df1c.astype('unicode')
             if df2c.dtype == object:
@@ -149,7 +157,8 @@ def _dataframes_equal(df1, df2):
                 # handle nan equality correctly
                 # This way is much faster than df1.equals(df2)
                 result = df1c == df2c
-                result[pd.isnull(df1c) == pd.isnull(df2c)] = True
+                result[null1 & null2] = True
+                result[null1 ^ null2] = False
                 if not result.all():
                     return False
     return True
-- 
2.43.0


From bdc72379373b91e444baf63b2f1009f4caf7d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 12/30] fix: structuring entities leaves the caller's column
 lists alone; read CSV entitysets with the separator they were written with

---
 featuretools/entityset/deserialize.py | 1 +
 featuretools/entityset/entity.py      | 3 +++
 featuretools/entityset/entityset.py   | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 901c739..d6971a9 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -154,6 +154,7 @@ def read_entity_data(description, path):
             engine=kwargs['engine'],
             compression=kwargs['compression'],
             encoding=kwargs['encoding'],
+            sep=kwargs['sep'],
             **read_kwargs
         )
     elif load_format == 'parquet':
diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 1683379..5372c09 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -422,6 +422,9 @@ class Entity(object):
         self.index = variable_id
 
     def set_secondary_time_index(self, secondary_time_index):
+        # do not add to the lists of the caller
+        secondary_time_index = {time_index: list(columns)
+                                for time_index, columns in secondary_time_index.items()}
         for time_index, columns in secondary_time_index.items():
             if is_instance(self.df, (dd, ks), 'DataFrame') or self.df.empty:
                 time_to_check = vtypes.DEFAULT_DTYPE_VALUES[self[time_index]._default_pandas_dtype]
diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index f33bcfb..50a1fdf 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -641,7 +641,7 @@ class EntitySet(object):
                 "Base entity doesn't have time_index defined"
 
             if base_time_index not in [v for v in additional_variables]:
-                copy_variables.append(base_time_index)
+                copy_variables = copy_variables + [base_time_index]
 
             transfer_types[new_entity_time_index] = type(base_entity[base_entity.time_index])
         else:
-- 
2.43.0


From d2f48314550c59f95a45626e1c02458b68fcb4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 13/30] fix: deep comparison of Dask entities computes them
 first

---
 featuretools/utils/wrangle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 34198f3..63d9103 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -2,6 +2,7 @@ import re
 import tarfile
 from datetime import datetime
 
+import dask.dataframe as dd
 import numpy as np
 import pandas as pd
 from pandas.api.types import is_categorical_dtype
@@ -114,6 +115,10 @@ def _check_time_type(time):
 
 
 def _dataframes_equal(df1, df2):
+    if isinstance(df1, dd.DataFrame):
+        df1 = df1.compute()
+    if isinstance(df2, dd.DataFrame):
+        df2 = df2.compute()
     # ^ means XOR
     df1_empty = not len(df1)
     df2_empty = not len(df2)
-- 
2.43.0


From 984adeba74ad4d2f1467edcc96f0ba66feed038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 14/30] fix: text written to CSV entitysets is read back as the
 same text

---
 featuretools/entityset/deserialize.py | 5 +++++
 featuretools/entityset/serialize.py   | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index d6971a9..06e01b1 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -148,6 +148,11 @@ def read_entity_data(description, path):
         kwargs['compression'] = str(kwargs['compression'])
     else:
         lib = pd
+        if load_format == 'csv':
+            # text that looks like a number or a missing value stays text
+            read_kwargs['dtype'] = {column: object for column in description['loading_info'].get('text_columns', [])}
+            read_kwargs['keep_default_na'] = False
+            read_kwargs['na_values'] = ['']
     if load_format == 'csv':
         dataframe = lib.read_csv(
             file,
diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index dc85e78..ded8137 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -5,6 +5,8 @@ import tarfile
 import tempfile
 
 import dask.dataframe as dd
+import pandas as pd
+from pandas.api.types import infer_dtype
 
 from featuretools.utils.gen_utils import import_or_none, is_instance
 from featuretools.utils.s3_utils import get_transport_params, use_smartopen_es
@@ -96,8 +98,12 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     location = os.path.join('data', basename)
     file = os.path.join(path, location)
     df = entity.df
+    loading_info = {'location': location, 'type': format, 'params': kwargs}
 
     if format == 'csv':
+        if isinstance(df, pd.DataFrame):
+            loading_info['text_columns'] = [column for column in df.select_dtypes('object').columns
+                                            if infer_dtype(df[column], skipna=True) == 'string']
         if is_instance(df, ks, 'DataFrame'):
             df = df.copy()
             columns = list(df.select_dtypes('object').columns)
@@ -127,7 +133,7 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     else:
         error = 'must be one of the following formats: {}'
         raise ValueError(error.format(', '.join(FORMATS)))
-    return {'location': location, 'type': format, 'params': kwargs}
+    return loading_info
 
 
 def write_data_description(entityset, path, profile_name=None, **kwargs):
-- 
2.43.0


From 88423cc5af647bd2dc35a8f3672b980f642cd8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 15/30] fix: deep comparison handles tuples and Dask partitions

---
 featuretools/utils/wrangle.py | 51 +++++++++++++++--------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 63d9103..27d5c2b 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -5,7 +5,7 @@ from datetime import datetime
 import dask.dataframe as dd
 import numpy as np
 import pandas as pd
-from pandas.api.types import is_categorical_dtype
+from pandas.api.types import is_categorical_dtype, is_list_like
 
 from featuretools import variable_types
 from featuretools.entityset.timedelta import Timedelta
@@ -115,10 +115,10 @@ def _check_time_type(time):
 
 
 def _dataframes_equal(df1, df2):
-    if isinstance(df1, dd.DataFrame):
-        df1 = df1.compute()
-    if isinstance(df2, dd.DataFrame):
-        df2 = df2.compute()
+    if isinstance(df1, dd.DataFrame) or isinstance(df2, dd.DataFrame):
+        # partitions may be indexed separately, so compare the rows in order
+        df1, df2 = [(df.compute() if isinstance(df, dd.DataFrame) else df).reset_index(drop=True)
+                    for df in (df1, df2)]
     # ^ means XOR
     df1_empty = not len(df1)
     df2_empty = not len(df2)
@@ -135,6 +135,14 @@ def _dataframes_equal(df1, df2):
             df2c = df2[c]
             null1 = pd.isnull(df1c)
             null2 = pd.isnull(df2c)
+            if (null1 ^ null2).any():
+                return False
+            df1c = df1c[~null1]
+            df2c = df2c[~null2]
+            if any(is_list_like(x) for x in df1c) or any(is_list_like(x) for x in df2c):
+                if not all(_lists_equal(x, y) for x, y in zip(df1c, df2c)):
+                    return False
+                continue
             if is_categorical_dtype(df1c) or is_categorical_dtype(df2c):
                 df1c = df1c.astype(object)
                 df2c = df2c.astype(object)
@@ -142,33 +150,18 @@ def _dataframes_equal(df1, df2):
                 df1c = df1c.astype('unicode')
             if df2c.dtype == object:
                 df2c = df2c.astype('unicode')
-
-            normal_compare = True
-            if df1c.dtype == object:
-                dropped = df1c.dropna()
-                if not dropped.empty:
-                    if isinstance(dropped.iloc[0], tuple):
-                        dropped2 = df2[c].dropna()
-                        normal_compare = False
-                        for i in range(len(dropped.iloc[0])):
-                            try:
-                                equal = dropped.apply(lambda x: x[i]).equals(
-                                    dropped2.apply(lambda x: x[i]))
-                            except IndexError:
-                                raise IndexError("If column data are tuples, they must all be the same length")
-                            if not equal:
-                                return False
-            if normal_compare:
-                # handle nan equality correctly
-                # This way is much faster than df1.equals(df2)
-                result = df1c == df2c
-                result[null1 & null2] = True
-                result[null1 ^ null2] = False
-                if not result.all():
-                    return False
+            if not (df1c == df2c).all():
+                return False
     return True
 
 
+def _lists_equal(x, y):
+    '''Whether two values, at least one of them a list or tuple, are equal (nan equals nan).'''
+    if not is_list_like(x) or not is_list_like(y) or len(x) != len(y):
+        return False
+    return all(a == b or (pd.isnull(a) and pd.isnull(b)) for a, b in zip(x, y))
+
+
 def _is_s3(string):
     '''
     Checks if the given string is a s3 path.
-- 
2.43.0


From 9d3c8885927e9f62710653e2df2ae1c745449d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 16/30] fix: missing text written to parquet is read back as
 missing

---
 featuretools/entityset/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index ded8137..e6cb68b 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -120,8 +120,8 @@ def write_entity_data(entity, path, format='csv', **kwargs):
         # Columns containing tuples are mapped as dtype object.
         # Issue is resolved by casting columns of dtype object to string.
         df = df.copy()
-        columns = list(df.select_dtypes('object').columns)
-        df[columns] = df[columns].astype(str)
+        for column in df.select_dtypes('object').columns:
+            df[column] = df[column].astype(str).where(df[column].notnull())
         df.to_parquet(file, **kwargs)
     elif format == 'pickle':
         # Dask currently does not support to_pickle
-- 
2.43.0


From 1ef62ad4c0b06b9fc813efb8420fa47014bd224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 17/30] fix: compare schema version components as numbers

---
 featuretools/utils/gen_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/utils/gen_utils.py b/featuretools/utils/gen_utils.py
index 7ed11bb..5a7e64e 100644
--- a/featuretools/utils/gen_utils.py
+++ b/featuretools/utils/gen_utils.py
@@ -56,8 +56,8 @@ def check_schema_version(cls, cls_type):
             )
             version_string = cls.features_dict['schema_version']
 
-        current = SCHEMA_VERSION.split('.')
-        saved = version_string.split('.')
+        current = [int(n) for n in SCHEMA_VERSION.split('.')]
+        saved = [int(n) for n in version_string.split('.')]
 
         warning_text_upgrade = ('The schema version of the saved %s'
                                 '(%s) is greater than the latest supported (%s). '
-- 
2.43.0


From c06958de3400dc99cea458e22b88296296fced9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:26 +0000
Subject: [PATCH 18/30] fix: missing coordinates are recognised whatever the
 row labels are

---
 featuretools/utils/entity_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index 1ef1f6a..d8a846a 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -225,4 +225,4 @@ def col_is_datetime(col):
 
 def replace_latlong_nan(values):
     """replace a single `NaN` value with a tuple: `(np.nan, np.nan)`"""
-    return values.where(values.notnull(), pd.Series([(np.nan, np.nan)] * len(values)))
+    return values.where(values.notnull(), pd.Series([(np.nan, np.nan)] * len(values), index=values.index))
-- 
2.43.0


From e2eef17e5ee4f997bcaa285191c8ae0d2589519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 19/30] fix: drop_first works with a number of values per
 feature

---
 featuretools/synthesis/encode_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/encode_features.py b/featuretools/synthesis/encode_features.py
index 1732978..b4aee78 100644
--- a/featuretools/synthesis/encode_features.py
+++ b/featuretools/synthesis/encode_features.py
@@ -136,7 +136,7 @@ def encode_features(feature_matrix, features, top_n=DEFAULT_TOP_N, include_unkno
         if isinstance(top_n, dict):
             select_n = top_n.get(f.get_name(), DEFAULT_TOP_N)
         if drop_first:
-            select_n = min(len(val_counts), top_n)
+            select_n = min(len(val_counts), select_n)
             select_n = max(select_n - 1, 1)
         unique = val_counts.head(select_n).index.tolist()
         for label in unique:
-- 
2.43.0


From e48c72e9285062b5cdd8ea798e532189fd66bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 20/30] fix: low information selection keeps features with
 several outputs

---
 featuretools/selection/selection.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 0f287e7..6f4265b 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -15,12 +15,7 @@ def remove_low_information_features(feature_matrix, features=None):
     keep = [c for c in feature_matrix
             if (feature_matrix[c].nunique(dropna=False) > 1 and
                 feature_matrix[c].dropna().shape[0] > 0)]
-    feature_matrix = feature_matrix[keep]
-    if features is not None:
-        features = [f for f in features
-                    if f.get_name() in feature_matrix.columns]
-        return feature_matrix, features
-    return feature_matrix
+    return _apply_feature_selection(keep, feature_matrix, features)
 
 
 def remove_highly_null_features(feature_matrix, features=None, pct_null_threshold=0.95):
-- 
2.43.0


From 9d7b47321b42d3298748c9354a02c17acfe96d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 21/30] fix: renamed identity features can be calculated

---
 featuretools/computational_backends/feature_set_calculator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index fff915b..3b1cb68 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -424,6 +424,9 @@ class FeatureSetCalculator(object):
 
     def _calculate_identity_features(self, features, df, _df_trie, progress_callback):
         for f in features:
+            # a renamed feature has the values of its variable
+            if f.get_name() != f.variable.id and f.get_name() not in df.columns:
+                df = df.assign(**{f.get_name(): df[f.variable.id]})
             assert f.get_name() in df.columns, (
                 'Column "%s" missing frome dataframe' % f.get_name())
 
-- 
2.43.0


From 4334fa38122180f6f5f573b0b4d135e8f65888f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 22/30] fix: a feature and a renamed copy of it can be
 calculated together

---
 .../feature_set_calculator.py                      | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 3b1cb68..8d9e4eb 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -541,18 +541,23 @@ class FeatureSetCalculator(object):
         # new column names (in the child entity) for the merge
         col_map = {relationship.parent_variable.id: merge_var}
         index_as_feature = None
+        # features with the same values as another one (under another name)
+        same_values = {}
 
         fillna_dict = {}
         for f in features:
             feature_defaults = {name: f.default_value
                                 for name in f.get_feature_names() if not pd.isna(f.default_value)}
             fillna_dict.update(feature_defaults)
-            if f.base_features[0].get_name() == relationship.parent_variable.id:
+            if index_as_feature is None and f.base_features[0].get_name() == relationship.parent_variable.id:
                 index_as_feature = f
             base_names = f.base_features[0].get_feature_names()
             for name, base_name in zip(f.get_feature_names(), base_names):
                 if name in child_df.columns:
                     continue
+                if col_map.get(base_name, merge_var) != merge_var:
+                    same_values[name] = col_map[base_name]
+                    continue
                 col_map[base_name] = name
 
         # merge the identity feature from the parent entity into the child
@@ -571,6 +576,9 @@ class FeatureSetCalculator(object):
             new_df = child_df.merge(merge_df, left_on=merge_var, right_index=True,
                                     how='left')
 
+        for name, same_name in same_values.items():
+            new_df = new_df.assign(**{name: new_df[same_name]})
+
         progress_callback(len(features) / float(self.num_features))
 
         return new_df.fillna(fillna_dict)
@@ -657,8 +665,10 @@ class FeatureSetCalculator(object):
                     # for some reason, using the string count is significantly
                     # faster than any method a primitive can return
                     # https://stackoverflow.com/questions/55731149/use-a-function-instead-of-string-in-pandas-groupby-agg
-                    if func == pd.Series.count:
+                    if func == pd.Series.count and u"{}-count".format(variable_id) not in agg_rename:
                         func = "count"
+                    elif func == pd.Series.count:
+                        func = partial(func)
 
                     funcname = func
                     if callable(func):
-- 
2.43.0


From 15ca8c6e5394b3d5f14ba5a2f13037452fa56280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 23/30] fix: a feature and a renamed copy of it can be
 calculated together (aggregations)

---
 .../feature_set_calculator.py                 | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 8d9e4eb..89cd211 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -1,5 +1,4 @@
 from datetime import datetime
-from functools import partial
 
 import dask.dataframe as dd
 import numpy as np
@@ -646,6 +645,7 @@ class FeatureSetCalculator(object):
         else:
             to_agg = {}
             agg_rename = {}
+            same_values = {}
             to_apply = set()
             # apply multivariable and time-dependent features as we find them, and
             # save aggregable features for later
@@ -665,31 +665,27 @@ class FeatureSetCalculator(object):
                     # for some reason, using the string count is significantly
                     # faster than any method a primitive can return
                     # https://stackoverflow.com/questions/55731149/use-a-function-instead-of-string-in-pandas-groupby-agg
-                    if func == pd.Series.count and u"{}-count".format(variable_id) not in agg_rename:
+                    if func == pd.Series.count:
                         func = "count"
-                    elif func == pd.Series.count:
-                        func = partial(func)
 
                     funcname = func
                     if callable(func):
-                        # if the same function is being applied to the same
-                        # variable twice, wrap it in a partial to avoid
-                        # duplicate functions
                         funcname = str(id(func))
-                        if u"{}-{}".format(variable_id, funcname) in agg_rename:
-                            func = partial(func)
-                            funcname = str(id(func))
-
                         func.__name__ = funcname
 
                     if isinstance(func, dd.Aggregation):
-                        # TODO: handle aggregation being applied to same variable twice
-                        # (see above partial wrapping of functions)
                         funcname = func.__name__
 
+                    # if the same function is being applied to the same
+                    # variable twice, copy the values of the first one
+                    column_name = u"{}-{}".format(variable_id, funcname)
+                    if column_name in agg_rename:
+                        same_values[f.get_name()] = agg_rename[column_name]
+                        continue
+
                     to_agg[variable_id].append(func)
                     # this is used below to rename columns that pandas names for us
-                    agg_rename[u"{}-{}".format(variable_id, funcname)] = f.get_name()
+                    agg_rename[column_name] = f.get_name()
                     continue
 
                 to_apply.add(f)
@@ -727,6 +723,8 @@ class FeatureSetCalculator(object):
                 # rename columns to the correct feature names
                 to_merge.columns = [agg_rename["-".join(x)] for x in to_merge.columns]
                 to_merge = to_merge[list(agg_rename.values())]
+                for name, same_name in same_values.items():
+                    to_merge[name] = to_merge[same_name]
 
                 # workaround for pandas bug where categories are in the wrong order
                 # see: https://github.com/pandas-dev/pandas/issues/22501
-- 
2.43.0


From d679cddb06f24834e35359cd7d3568becd701ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 24/30] fix: respect primitives that exclude being the base of
 others

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index ccf8451..0bd263c 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -852,7 +852,7 @@ def check_stacking(primitive, inputs):
 
     for f in inputs:
         if f.primitive.base_of_exclude is not None:
-            if primitive in f.base_of_exclude:
+            if isinstance(primitive, tuple(f.primitive.base_of_exclude)):
                 return False
 
     for f in inputs:
-- 
2.43.0


From 1718c5276fb953ede28caf3e3eb23ebc559b1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:49 +0000
Subject: [PATCH 25/30] fix: synthesis gives the same list of features in every
 process

---
 featuretools/synthesis/deep_feature_synthesis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index 0bd263c..ec383b9 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -706,7 +706,8 @@ class DeepFeatureSynthesis(object):
                                                         feature_filter=feature_filter)
             matching_inputs = filter_matches_by_options(matching_inputs,
                                                         current_options)
-            wheres = list(self.where_clauses[child_entity.id])
+            # sort because the order of a set of features changes between processes
+            wheres = sorted(self.where_clauses[child_entity.id], key=lambda f: f.unique_name())
 
             for matching_input in matching_inputs:
                 if not check_stacking(agg_prim, matching_input):
@@ -915,7 +916,7 @@ def match(input_types, features, replace=False, commutative=False, require_direc
             matching_inputs.add(new_match)
 
     if commutative:
-        matching_inputs = {tuple(sorted(s, key=lambda x: x.get_name().lower())) for s in matching_inputs}
+        matching_inputs = {tuple(sorted(s, key=lambda x: (x.get_name().lower(), x.get_name()))) for s in matching_inputs}
 
     return matching_inputs
 
-- 
2.43.0


From a60430e558343d85514e71e1c4cc439f215c62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:38 +0000
Subject: [PATCH 26/30] fix: group-by features look at the groupby when they
 require direct inputs

---
 featuretools/synthesis/deep_feature_synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index ec383b9..5fec8a0 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -635,9 +635,9 @@ class DeepFeatureSynthesis(object):
                         check_transform_stacking(matching_input)):
                     for groupby in groupby_matches:
                         if require_direct_input and (
-                            _all_direct_and_same_path(matching_input + (groupby,)) or
+                            _all_direct_and_same_path(matching_input + groupby) or
                             not any([isinstance(feature, DirectFeature) for
-                                     feature in (matching_input + (groupby, ))])
+                                     feature in (matching_input + groupby)])
                         ):
                             continue
                         new_f = GroupByTransformFeature(list(matching_input),
-- 
2.43.0


From e27cc346da4be3e57040ef01fe9274e54f564212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 27/30] fix: synthesis returns no features stacked deeper than
 the maximum depth

---
 .../synthesis/deep_feature_synthesis.py         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index 5fec8a0..93c25da 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -9,6 +9,7 @@ from featuretools.entityset.relationship import RelationshipPath
 from featuretools.feature_base import (
     AggregationFeature,
     DirectFeature,
+    FeatureOutputSlice,
     GroupByTransformFeature,
     IdentityFeature,
     TransformFeature
@@ -317,6 +318,12 @@ class DeepFeatureSynthesis(object):
 
         new_features = list(filter(filt, new_features))
 
+        # features reached through a related entity can be one step too deep
+        if self.max_depth is not None:
+            stop_at = set(f.unique_name() for f in self.seed_features)
+            new_features = [f for f in new_features
+                            if _stacking_depth(f, stop_at) <= self.max_depth]
+
         new_features.sort(key=lambda f: f.get_depth())
 
         new_features = self._filter_features(new_features)
@@ -823,6 +830,16 @@ class DeepFeatureSynthesis(object):
         return matching_inputs
 
 
+def _stacking_depth(feature, stop_at):
+    """number of primitives and relationships stacked to make the feature
+       (conditions and the choice of one output are not stacked)"""
+    if isinstance(feature, FeatureOutputSlice):
+        return _stacking_depth(feature.base_feature, stop_at)
+    if feature.unique_name() in stop_at or isinstance(feature, IdentityFeature):
+        return 0
+    return 1 + max([_stacking_depth(f, stop_at) for f in feature.base_features] or [0])
+
+
 def check_transform_stacking(inputs):
     # Avoid transform stacking when building from direct features
     for f in inputs:
-- 
2.43.0


From 267f11f93b7f74a9d2b8c667699c24c0e3d02fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 28/30] fix: hiding columns behind a secondary time index
 leaves the entity's dataframe alone

---
 featuretools/entityset/entityset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 50a1fdf..6373834 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -1024,6 +1024,8 @@ class EntitySet(object):
                 elif is_instance(df, ks, 'DataFrame'):
                     df.loc[mask, columns] = None
                 else:
+                    # do not change the dataframe of the caller
+                    df = df.copy()
                     df.loc[mask, columns] = np.nan
 
         return df
-- 
2.43.0


From 3bab1cfb78b86e031ce78c4794932a4cae5417ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 29/30] fix: entitysets can be described whatever the order of
 their entities

---
 featuretools/entityset/deserialize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 06e01b1..5f1cee9 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -90,7 +90,11 @@ def description_to_entityset(description, **kwargs):
     entityset = EntitySet(description['id'])
 
     last_time_index = []
-    for entity in description['entities'].values():
+    # entities with a time index first, since they determine the time type
+    # that secondary time indexes are checked against
+    entities = sorted(description['entities'].values(),
+                      key=lambda entity: entity.get('time_index') is None)
+    for entity in entities:
         entity['loading_info']['params'].update(kwargs)
         # If path is None, an empty dataframe will be created for entity.
         description_to_entity(entity, entityset, path=path)
-- 
2.43.0


From e03956f4f75ad749e05a39109a41187af9df02f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:19 +0000
Subject: [PATCH 30/30] fix: a copy of a renamed feature keeps its name

---
 featuretools/feature_base/feature_base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 21ca307..0b756fc 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -361,7 +361,7 @@ class IdentityFeature(FeatureBase):
 
     def copy(self):
         """Return copy of feature"""
-        return IdentityFeature(self.variable)
+        return IdentityFeature(self.variable, name=self._name)
 
     def generate_name(self):
         return self.variable.name
@@ -452,7 +452,7 @@ class DirectFeature(FeatureBase):
         """Return copy of feature"""
         _is_forward, relationship = self.relationship_path[0]
         return DirectFeature(self.base_features[0], self.entity,
-                             relationship=relationship)
+                             relationship=relationship, name=self._name)
 
     @property
     def variable_type(self):
@@ -590,7 +590,8 @@ class AggregationFeature(FeatureBase):
                                   relationship_path=self.relationship_path,
                                   primitive=self.primitive,
                                   use_previous=self.use_previous,
-                                  where=self.where)
+                                  where=self.where,
+                                  name=self._name)
 
     def _where_str(self):
         if self.where is not None:
@@ -665,7 +666,7 @@ class TransformFeature(FeatureBase):
         return cls(base_features=base_features, primitive=primitive, name=arguments['name'])
 
     def copy(self):
-        return TransformFeature(self.base_features, self.primitive)
+        return TransformFeature(self.base_features, self.primitive, name=self._name)
 
     def generate_name(self):
         return self.primitive.generate_name(base_feature_names=[bf.get_name() for bf in self.base_features])
@@ -709,7 +710,8 @@ class GroupByTransformFeature(TransformFeature):
         # so here we separate them again
         return GroupByTransformFeature(self.base_features[:-1],
                                        self.primitive,
-                                       self.groupby)
+                                       self.groupby,
+                                       name=self._name)
 
     def generate_name(self):
         # exclude the groupby feature from base_names since it has a special
@@ -816,7 +818,7 @@ class FeatureOutputSlice(FeatureBase):
         return cls(base_feature=base_feature, n=n, name=name)
 
     def copy(self):
-        return FeatureOutputSlice(self.base_feature, self.n)
+        return FeatureOutputSlice(self.base_feature, self.n, name=self._name)
 
 
 def _check_feature(feature):
-- 
2.43.0

