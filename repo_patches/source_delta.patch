From bcc5495a4271d850af6f3abe9665fb6af7cfd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:29 +0000
Subject: [PATCH 01/15] fix: classification counts no longer mark a correctly
 predicted ground truth as false-negative without hardmax

---
 src/valor_lite/classification/computation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index eb5b2e2..72c5407 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -151,6 +151,8 @@ def compute_counts(
         mask_fn = (mask_matching_labels & ~mask_score) | mask_fp
         mask_tn = ~mask_matching_labels & ~mask_score
 
+        # a ground truth with a true-positive is not a false-negative
+        mask_fn &= ~np.isin(ids[:, 0], ids[mask_tp, 0])
         mask_fn &= mask_valid_gts
         mask_fp &= mask_valid_pds
 
-- 
2.43.0


From f59c13313e8f45f6d440c8c8e125dc10acb6c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 02/15] fix: classification confusion matrices and examples no
 longer depend on the order of the score thresholds

---
 src/valor_lite/classification/computation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 72c5407..b3749a5 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -289,9 +289,11 @@ def compute_pair_classifications(
     )
 
     mask_label_match = np.isclose(gt_labels, pd_labels)
-    mask_score = scores > 1e-9
+    mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
-        mask_score &= scores >= score_thresholds[score_idx]
+        mask_score = mask_score_nonzero & (
+            scores >= score_thresholds[score_idx]
+        )
         if hardmax:
             mask_score &= winners
 
-- 
2.43.0


From 8c18660d75901d770aa98899e015c713ce8e2de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:38 +0000
Subject: [PATCH 03/15] fix: ROC curves always start at the origin, also when
 tied scores or a chunk boundary drop the first point

---
 src/valor_lite/classification/computation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index b3749a5..c5d9a38 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -59,7 +59,8 @@ def compute_rocauc(
 
         fps = cumulative_fp[mask_pds]
         tps = cumulative_tp[mask_pds]
-        if prev[label_idx, 0] > 0 or prev[label_idx, 1] > 0:
+        # continue from the last point, the curve starts at the origin
+        if fps[0] != prev[label_idx, 0] or tps[0] != prev[label_idx, 1]:
             fps = np.r_[prev[label_idx, 0], fps]
             tps = np.r_[prev[label_idx, 1], tps]
 
-- 
2.43.0


From 26dd9a0348c68e24f001d2020b12a26043d4e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:50 +0000
Subject: [PATCH 04/15] fix: classification accuracy divides by the number of
 datums selected by the datums filter

---
 src/valor_lite/classification/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index b6d9e57..5bd410b 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -593,7 +593,7 @@ class Evaluator:
             raise ValueError("At least one score threshold must be passed.")
 
         n_scores = len(score_thresholds)
-        n_datums = self.info.number_of_datums
+        n_datums = self.get_info(datums=datums).number_of_datums
         n_labels = self.info.number_of_labels
 
         # intermediates
-- 
2.43.0


From 64553642e7facc4ca2b4d2ffd2e7d4804c12f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 05/15] fix: semantic segmentation accumulates pixel counts of
 masks that share a label

---
 .../semantic_segmentation/computation.py      | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/computation.py b/src/valor_lite/semantic_segmentation/computation.py
index 087e57d..4b62bea 100644
--- a/src/valor_lite/semantic_segmentation/computation.py
+++ b/src/valor_lite/semantic_segmentation/computation.py
@@ -47,14 +47,23 @@ def compute_intermediates(
 
     confusion_matrix = np.zeros((n_labels + 1, n_labels + 1), dtype=np.uint64)
     confusion_matrix[0, 0] = background_counts
-    confusion_matrix[
-        np.ix_(groundtruth_labels + 1, prediction_labels + 1)
-    ] = intersection_counts
-    confusion_matrix[0, prediction_labels + 1] = (
-        prediction_counts - intersected_prediction_counts
+    # accumulate as multiple masks may share the same label
+    np.add.at(
+        confusion_matrix,
+        np.ix_(groundtruth_labels + 1, prediction_labels + 1),
+        intersection_counts.astype(np.uint64),
     )
-    confusion_matrix[groundtruth_labels + 1, 0] = (
-        groundtruth_counts - intersected_groundtruth_counts
+    np.add.at(
+        confusion_matrix[0, :],
+        prediction_labels + 1,
+        (prediction_counts - intersected_prediction_counts).astype(np.uint64),
+    )
+    np.add.at(
+        confusion_matrix[:, 0],
+        groundtruth_labels + 1,
+        (groundtruth_counts - intersected_groundtruth_counts).astype(
+            np.uint64
+        ),
     )
     return confusion_matrix
 
-- 
2.43.0


From a17099db6dce4d126a422db9ae93060b0495c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:38 +0000
Subject: [PATCH 06/15] fix: segmentation overlap removal considers the kept
 pixels of every earlier mask

---
 src/valor_lite/semantic_segmentation/annotation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index b4170e6..b5cce6f 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -110,6 +110,7 @@ class Segmentation:
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
+                mask_accumulation = mask_accumulation | bitmask.mask
             else:
                 mask_accumulation = mask_accumulation | bitmask.mask
         if (
-- 
2.43.0


From 76d6e977bdeca8858e81f42e806e4f104c02f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:22 +0000
Subject: [PATCH 07/15] fix: in-memory cache keeps the write order when a table
 follows buffered rows

---
 src/valor_lite/cache/ephemeral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index 92c4e5d..bb1ac3e 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -254,6 +254,7 @@ class MemoryCacheWriter(MemoryCache):
         table : pa.Table
             A populated table.
         """
+        self.flush()
         self._table = pa.concat_tables([self._table, table])
 
     def flush(self):
-- 
2.43.0


From 87b808a54dcfa4de24950ac06f94dd25f93f4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:35 +0000
Subject: [PATCH 08/15] fix: file cache finds its files when the path contains
 glob characters

---
 src/valor_lite/cache/persistent.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 05356a9..ef25af7 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -107,7 +107,10 @@ class FileCache:
         if not self._path.exists():
             return []
         return [
-            Path(filepath) for filepath in glob.glob(f"{self._path}/*.parquet")
+            Path(filepath)
+            for filepath in glob.glob(
+                f"{glob.escape(str(self._path))}/*.parquet"
+            )
         ]
 
 
-- 
2.43.0


From 5b92031bccfde59689fb7619cb90ac4ed6ee29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 09/15] fix: sorting a multi-file cache into memory keeps every
 row and orders the whole table

---
 src/valor_lite/cache/compute.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 1a1dbf6..acdaff7 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -142,19 +142,16 @@ def sort(
                 table_sort_override=table_sort_override,
             )
     else:
-        intermediate_sink = MemoryCacheWriter.create(
-            schema=sink.schema,
-            batch_size=sink.batch_size,
-        )
-        _merge(
-            source=source,
-            sink=sink,
-            intermediate_sink=intermediate_sink,
-            batch_size=batch_size,
-            sorting=sorting,
-            columns=columns,
-            table_sort_override=table_sort_override,
-        )
+        # in-memory sinks hold all rows in a single table
+        tables = [
+            table_sort_override(tbl)
+            if table_sort_override is not None
+            else tbl
+            for tbl in source.iterate_tables(columns=columns)
+        ]
+        if tables:
+            sink.write_table(pa.concat_tables(tables).sort_by(sorting))
+        sink.flush()
 
 
 def paginate_index(
-- 
2.43.0


From 723458fdf5d0ec91080649de8b309dd3265d2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:58 +0000
Subject: [PATCH 10/15] fix: context recall no longer divides by zero when a
 ground truth yields no statements

---
 src/valor_lite/text_generation/computation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valor_lite/text_generation/computation.py b/src/valor_lite/text_generation/computation.py
index d1f9bc8..1aea816 100644
--- a/src/valor_lite/text_generation/computation.py
+++ b/src/valor_lite/text_generation/computation.py
@@ -310,9 +310,12 @@ def calculate_context_recall(
             context_list=predicted_context,
             groundtruth_statements=groundtruth_statements,
         )
+        # A ground truth without any statements contributes no recall.
         scores.append(
             sum(verdict["verdict"] == "yes" for verdict in verdicts)
             / len(verdicts)
+            if len(verdicts) > 0
+            else 0.0
         )
 
     return max(scores)
-- 
2.43.0


From 535f5666e014906c0ab992bafbff05b2b347800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:58 +0000
Subject: [PATCH 11/15] fix: a verdict that is not a string is reported as an
 invalid LLM response instead of raising TypeError

---
 src/valor_lite/text_generation/llm/validators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valor_lite/text_generation/llm/validators.py b/src/valor_lite/text_generation/llm/validators.py
index 83d8735..c79049c 100644
--- a/src/valor_lite/text_generation/llm/validators.py
+++ b/src/valor_lite/text_generation/llm/validators.py
@@ -59,6 +59,10 @@ def validate_verdicts(
             raise InvalidLLMResponseError(
                 f"LLM response is malformed. Inner dictionaries should only contain keys 'verdict' and 'analysis': {response} "
             )
+        elif not isinstance(value["verdict"], str):
+            raise InvalidLLMResponseError(
+                f"LLM response should follow the format 'dict[str, list[dict[str, str]]]': {response}"
+            )
         elif (
             allowed_values is not None
             and value["verdict"] not in allowed_values
-- 
2.43.0


From 6b80fa47f880db0a63e611e0abadd443bcf83e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:58 +0000
Subject: [PATCH 12/15] fix: replies with oversized numbers or nesting are
 reported as invalid LLM responses instead of raising

---
 src/valor_lite/text_generation/llm/utilities.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/text_generation/llm/utilities.py b/src/valor_lite/text_generation/llm/utilities.py
index 1ffd809..c75e01b 100644
--- a/src/valor_lite/text_generation/llm/utilities.py
+++ b/src/valor_lite/text_generation/llm/utilities.py
@@ -34,10 +34,21 @@ def trim_and_load_json(text: str) -> dict[str, Any]:
         raise InvalidLLMResponseError(
             f"Evaluation LLM responded with invalid JSON. JSONDecodeError: {str(e)}"
         )
+    except (ValueError, RecursionError) as e:
+        # numbers with too many digits or too deeply nested containers
+        raise InvalidLLMResponseError(
+            f"Evaluation LLM responded with unreadable JSON. {type(e).__name__}: {str(e)}"
+        )
 
 
 def find_first_signed_integer(text: str) -> int | None:
     match = re.search(r"-?\d+", text)
     if not match:
         return None
-    return int(match.group())
+    try:
+        return int(match.group())
+    except ValueError as e:
+        # the number has more digits than Python is willing to convert
+        raise InvalidLLMResponseError(
+            f"LLM responded with an unreadable integer. ValueError: {str(e)}"
+        )
-- 
2.43.0


From 01d0066e168540fb07864a6c600944a3f7f883f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:17 +0000
Subject: [PATCH 13/15] fix: write cache columns with the cache's schema

write_columns inferred the column types from the values, so a column of
missing values (or whole numbers in a float column) made the write or a later flush fail.
---
 src/valor_lite/cache/ephemeral.py  | 2 +-
 src/valor_lite/cache/persistent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index bb1ac3e..be996e4 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -204,7 +204,7 @@ class MemoryCacheWriter(MemoryCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        batch = pa.RecordBatch.from_pydict(columns, schema=self.schema)
         self.write_batch(batch)
 
     def write_batch(
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index ef25af7..c92ee96 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -410,7 +410,7 @@ class FileCacheWriter(FileCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        batch = pa.RecordBatch.from_pydict(columns, schema=self._schema)
         self.write_batch(batch)
 
     def write_batch(
-- 
2.43.0


From 31cfd98a2ee0906794bc7fdb4968106c4ddc41d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 14/15] fix: bin running recalls for the precision-recall curve
 with integer arithmetic

floor(recall * 100.0) put recalls such as 29/50 or 57/100 one bin too low,
because the quotient or the product rounds to just below the integer.
---
 src/valor_lite/object_detection/computation.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index ad31932..e082ad7 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -480,14 +480,12 @@ def compute_counts(
         where=running_total_count > 0,
         out=precision,
     )
-    recall = np.zeros_like(running_total_count, dtype=np.float64)
-    np.divide(
-        running_tp_count,
-        running_gt_count,
-        where=running_gt_count > 0,
-        out=recall,
-    )
-    recall_index = np.floor(recall * 100.0).astype(np.int32)
+    # integer division, as (29 / 50) * 100.0 rounds to just below 58
+    recall_index = (
+        running_tp_count
+        * np.uint64(100)
+        // np.maximum(running_gt_count, 1).astype(np.uint64)
+    ).astype(np.int32)
 
     # sort precision in descending order
     precision_indices = np.argsort(-precision, axis=1)
-- 
2.43.0


From 4a7257ac068cf8d828f6ad571b890731c8c3133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:20 +0000
Subject: [PATCH 15/15] fix: filter reloaded evaluators whose metadata types
 have no name alias

---
 src/valor_lite/classification/evaluator.py    |  4 ++++
 src/valor_lite/classification/shared.py       | 24 +++++++++++++++++++
 src/valor_lite/object_detection/evaluator.py  |  4 ++++
 src/valor_lite/object_detection/shared.py     | 24 +++++++++++++++++++
 .../semantic_segmentation/evaluator.py        |  4 ++++
 .../semantic_segmentation/shared.py           | 24 +++++++++++++++++++
 6 files changed, 84 insertions(+)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index 5bd410b..7df8476 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -39,6 +39,7 @@ from valor_lite.classification.shared import (
     generate_roc_curve_cache_path,
     generate_roc_curve_schema,
     generate_schema,
+    restore_metadata_types,
 )
 from valor_lite.classification.utilities import (
     create_empty_confusion_matrix_with_examples,
@@ -393,6 +394,9 @@ class Evaluator:
         with open(metadata_path, "r") as f:
             encoded_types = json.load(f)
             metadata_fields = decode_metadata_fields(encoded_types)
+            metadata_fields = restore_metadata_types(
+                metadata_fields, schema=reader.schema
+            )
 
         return cls(
             reader=reader,
diff --git a/src/valor_lite/classification/shared.py b/src/valor_lite/classification/shared.py
index fdc9b1e..d4b6534 100644
--- a/src/valor_lite/classification/shared.py
+++ b/src/valor_lite/classification/shared.py
@@ -82,6 +82,30 @@ def generate_roc_curve_schema() -> pa.Schema:
     )
 
 
+def restore_metadata_types(
+    metadata_fields: list[tuple[str, str]],
+    schema: pa.Schema,
+) -> list[tuple[str, str | pa.DataType]]:
+    """
+    Restores the types that cannot be recreated from their name.
+
+    Parameters
+    ----------
+    metadata_fields : list[tuple[str, str]]
+        The decoded metadata fields.
+    schema : pa.Schema
+        The schema of the cache that contains the metadata fields.
+    """
+    restored: list[tuple[str, str | pa.DataType]] = []
+    for name, type_name in metadata_fields:
+        try:
+            pa.type_for_alias(type_name)
+            restored.append((name, type_name))
+        except ValueError:
+            restored.append((name, schema.field(name).type))
+    return restored
+
+
 def encode_metadata_fields(
     metadata_fields: list[tuple[str, str | pa.DataType]] | None
 ) -> dict[str, str]:
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 2585e40..b64dc13 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -35,6 +35,7 @@ from valor_lite.object_detection.shared import (
     generate_metadata_path,
     generate_ranked_cache_path,
     generate_ranked_schema,
+    restore_metadata_types,
 )
 from valor_lite.object_detection.utilities import (
     create_empty_confusion_matrix_with_examples,
@@ -281,6 +282,9 @@ class Evaluator:
         with open(metadata_path, "r") as f:
             encoded_metadata_types = json.load(f)
             metadata_fields = decode_metadata_fields(encoded_metadata_types)
+            metadata_fields = restore_metadata_types(
+                metadata_fields, schema=detailed_reader.schema
+            )
 
         return cls(
             detailed_reader=detailed_reader,
diff --git a/src/valor_lite/object_detection/shared.py b/src/valor_lite/object_detection/shared.py
index 976a4ad..0da446f 100644
--- a/src/valor_lite/object_detection/shared.py
+++ b/src/valor_lite/object_detection/shared.py
@@ -108,6 +108,30 @@ def generate_ranked_schema(
     )
 
 
+def restore_metadata_types(
+    metadata_fields: list[tuple[str, str]],
+    schema: pa.Schema,
+) -> list[tuple[str, str | pa.DataType]]:
+    """
+    Restores the types that cannot be recreated from their name.
+
+    Parameters
+    ----------
+    metadata_fields : list[tuple[str, str]]
+        The decoded metadata fields.
+    schema : pa.Schema
+        The schema of the cache that contains the metadata fields.
+    """
+    restored: list[tuple[str, str | pa.DataType]] = []
+    for name, type_name in metadata_fields:
+        try:
+            pa.type_for_alias(type_name)
+            restored.append((name, type_name))
+        except ValueError:
+            restored.append((name, schema.field(name).type))
+    return restored
+
+
 def encode_metadata_fields(
     metadata_fields: list[tuple[str, str | pa.DataType]] | None
 ) -> dict[str, str]:
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index 9eb34d1..2c6ee90 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -26,6 +26,7 @@ from valor_lite.semantic_segmentation.shared import (
     generate_cache_path,
     generate_metadata_path,
     generate_schema,
+    restore_metadata_types,
 )
 from valor_lite.semantic_segmentation.utilities import (
     unpack_precision_recall_iou_into_metric_lists,
@@ -228,6 +229,9 @@ class Evaluator:
         with open(metadata_path, "r") as f:
             metadata_types = json.load(f)
             metadata_fields = decode_metadata_fields(metadata_types)
+            metadata_fields = restore_metadata_types(
+                metadata_fields, schema=reader.schema
+            )
 
         return cls(
             reader=reader,
diff --git a/src/valor_lite/semantic_segmentation/shared.py b/src/valor_lite/semantic_segmentation/shared.py
index b1c9889..0ef61e6 100644
--- a/src/valor_lite/semantic_segmentation/shared.py
+++ b/src/valor_lite/semantic_segmentation/shared.py
@@ -64,6 +64,30 @@ def generate_schema(
     )
 
 
+def restore_metadata_types(
+    metadata_fields: list[tuple[str, str | pa.DataType]],
+    schema: pa.Schema,
+) -> list[tuple[str, str | pa.DataType]]:
+    """
+    Restores the types that cannot be recreated from their name.
+
+    Parameters
+    ----------
+    metadata_fields : list[tuple[str, str | pa.DataType]]
+        The decoded metadata fields.
+    schema : pa.Schema
+        The schema of the cache that contains the metadata fields.
+    """
+    restored: list[tuple[str, str | pa.DataType]] = []
+    for name, type_name in metadata_fields:
+        try:
+            pa.type_for_alias(type_name)
+            restored.append((name, type_name))
+        except ValueError:
+            restored.append((name, schema.field(name).type))
+    return restored
+
+
 def encode_metadata_fields(
     metadata_fields: list[tuple[str, str | pa.DataType]] | None
 ) -> dict[str, str]:
-- 
2.43.0

