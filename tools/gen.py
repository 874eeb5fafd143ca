#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/valor_lite/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=""):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[S + f for f in files],
                                state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                                mechanism=[dict(name=n, where=S + w) for n, w in mech],
                                observe_at=list(observe), hook_needed=None)), na, note))


CL, OD, SS, TG = "classification/", "object_detection/", "semantic_segmentation/", "text_generation/"

prop("C01", "Classification counts, precision, recall, F1 and accuracy are exact",
     "For every dataset, list of score thresholds and hardmax setting, the reported TP/FP/FN/TN of a label equal the number of datums for which that label is/is not the ground truth and is/is not predicted positively (score non-zero, at or above the threshold, and the datum's first highest score when hardmax is on). Precision, recall and F1 are the quotients of those counts (0 when undefined), and accuracy is the fraction of datums whose ground-truth label is predicted positively. Each requested threshold is answered independently and in the order it was given.",
     ["inputs", "configurations"], "all score values incl. ties and zeros, all thresholds in any order, all ground-truth assignments, hardmax on/off",
     "the tests sample about ten fixed score tables at fixed, ascending thresholds, nearly all with hardmax on",
     [CL + "evaluator.py", CL + "computation.py", CL + "loader.py", CL + "utilities.py"],
     [("compute_counts masks", CL + "computation.py"), ("winner flag set at load time", CL + "loader.py")],
     observe=["Evaluator.compute_precision_recall"])
prop("C02", "Classification confusion matrix accounts for every datum",
     "For every dataset, thresholds and hardmax setting, cell (g, p) of the confusion matrix is the number of datums with ground truth g for which p is predicted positively, and the unmatched entry of g is the number of datums with ground truth g that have no positive prediction. With hardmax every datum is therefore counted exactly once. The result for a threshold does not depend on the other thresholds requested.",
     ["inputs", "configurations"], "all score values incl. ties, all threshold lists, hardmax on/off, arbitrary subsets of labels scored per datum",
     "the tests use a handful of tables and always ask for ascending thresholds",
     [CL + "evaluator.py", CL + "computation.py", CL + "utilities.py"],
     [("compute_pair_classifications / compute_confusion_matrix", CL + "computation.py")],
     observe=["Evaluator.compute_confusion_matrix"])
prop("C03", "ROC AUC equals the pairwise ranking probability",
     "When every datum scores every label, the ROCAUC of a label is the probability that a randomly chosen positive datum scores higher on that label than a randomly chosen negative one, ties counting one half, and 0 when there are no positives or no negatives; mROCAUC is the mean over all labels. This holds for every tie pattern and independently of how the data was split into files and batches.",
     ["inputs", "configurations"], "all score values and tie patterns, all ground-truth assignments, in-memory and on-disk caches with any rows per file",
     "tests have few ties and none that meets a chunk boundary",
     [CL + "evaluator.py", CL + "computation.py", "cache/compute.py"],
     [("_create_rocauc_intermediate running maxima", CL + "evaluator.py"), ("compute_rocauc chunk continuation", CL + "computation.py")],
     observe=["Evaluator.compute_rocauc"])
prop("C04", "Classification examples name exactly the datums behind the counts",
     "For every threshold, compute_examples returns one record per datum whose true positives, false positives and false negatives are exactly that datum's labels in those roles. In the confusion matrix with examples each cell lists every datum counted in that cell exactly once with its prediction score, the count equals the number of examples, and the counts equal those of the plain confusion matrix.",
     ["inputs", "configurations"], "all score values, thresholds in any order, hardmax on/off, arbitrary subsets of labels scored",
     "the tests compare a few literal outputs",
     [CL + "evaluator.py", CL + "utilities.py", CL + "computation.py"],
     [("unpack_examples / unpack_confusion_matrix_with_examples", CL + "utilities.py")],
     observe=["Evaluator.compute_examples", "Evaluator.compute_confusion_matrix_with_examples"])
prop("C05", "Filtering a classification evaluator equals evaluating the subset",
     "Metrics computed through a datum filter (either Evaluator.filter or the datums argument) equal the metrics of an evaluator that was only given the selected datums, with the label set unchanged. A ground-truth filter keeps exactly the datums whose ground truth satisfies it, and a prediction filter keeps exactly the predictions that satisfy it. An empty selection is refused rather than evaluated.",
     ["inputs", "configurations"], "any selected subset, any scores and thresholds, in-memory and on disk",
     "the tests filter one fixture by a few fixed expressions",
     [CL + "evaluator.py", CL + "shared.py", "cache/ephemeral.py", "cache/persistent.py"],
     [("Evaluator.filter row masks", CL + "evaluator.py")],
     observe=["Evaluator.filter", "Evaluator.compute_*(datums=...)"])

prop("C06", "Overlap between two annotations is their true IoU",
     "For bounding boxes, bitmasks and polygons the overlap used for matching is area(intersection)/area(union) of the two shapes: it lies in [0, 1], is symmetric, is 1 for identical shapes of non-zero area and 0 for disjoint ones, and a detection of the right label is accepted at an IoU threshold exactly when this ratio reaches the threshold. Every ground truth is compared with every prediction of its datum and results are attributed to the right pair.",
     ["inputs"], "all box coordinates, all bitmaps within the bound, all polygon pair areas, any number of annotations per side",
     "tests use a few dozen fixed coordinates",
     [OD + "computation.py", OD + "loader.py", OD + "annotation.py"],
     [("compute_bbox_iou / compute_bitmask_iou / compute_polygon_iou", OD + "computation.py"), ("pairing in _add_data", OD + "loader.py")],
     observe=["Loader.add_bounding_boxes", "Loader.add_bitmasks", "Loader.add_polygons"])
prop("C07", "Detection counts, precision, recall and F1 follow the matching rule",
     "At every IoU and score threshold, walking a label's predictions by decreasing score, a prediction is a true positive when its best-overlapping ground truth of the same label reaches the IoU threshold and has not been claimed by an earlier prediction, and a false positive otherwise; false negatives are the label's ground truths not claimed. Precision, recall and F1 are the quotients of these counts (0 when undefined), each ground truth is claimed at most once, and thresholds are answered independently of each other and of their order.",
     ["inputs", "configurations"], "all IoU matrices, scores (ties included), labels and threshold lists within the bound",
     "tests compare a few literal scenes at fixed thresholds",
     [OD + "computation.py", OD + "evaluator.py", OD + "loader.py", OD + "utilities.py"],
     [("rank_pairs iou_prev bookkeeping", OD + "computation.py"), ("compute_counts", OD + "computation.py")],
     observe=["Evaluator.compute_precision_recall"])
prop("C08", "AP, AR, their means and the PR curve follow the 101-point definition",
     "AP of a label at an IoU threshold is the mean over the 101 recall levels 0, 0.01, ..., 1 of the highest precision reached at that recall or beyond, over the prediction ranking; AR is the label's recall averaged over the requested IoU thresholds; mAP and mAR are the means over labels, and the averaged-over-IoU variants are means over the requested thresholds. All values lie in [0, 1] and the PR curve never increases with recall.",
     ["inputs", "configurations"], "all IoU matrices, score rankings, label assignments and threshold lists within the bound",
     "tests compare a few literal scenes and one COCO regression output",
     [OD + "computation.py", OD + "evaluator.py", OD + "utilities.py"],
     [("compute_precision_recall_f1 / compute_average_precision / compute_average_recall", OD + "computation.py"), ("running counts across batches", OD + "evaluator.py")],
     observe=["Evaluator.compute_precision_recall"])
prop("C09", "Detection confusion matrix partitions annotations",
     "Ground truths and predictions of a datum are paired one-to-one, greedily by decreasing score (ties by larger IoU) over all overlapping pairs whatever their labels. At every IoU and score threshold, a pair whose IoU and score reach the thresholds is counted in the cell of its two labels; every other ground truth is counted once as unmatched ground truth and every other prediction whose score passes once as unmatched prediction. So each ground truth and each passing prediction is counted exactly once.",
     ["inputs", "configurations"], "all IoU matrices, scores, labels and thresholds within the bound",
     "tests compare a few literal scenes",
     [OD + "computation.py", OD + "evaluator.py", OD + "utilities.py"],
     [("mask_pairs_greedily / compute_pair_classifications / compute_confusion_matrix", OD + "computation.py")],
     observe=["Evaluator.compute_confusion_matrix"])
prop("C10", "Detection examples agree with the confusion matrix",
     "For every datum, compute_examples lists each ground truth exactly once as matched in a true positive pair or as false negative, and each passing prediction exactly once as part of a true positive pair or as false positive; matched pairs have equal labels and reach both thresholds. In the confusion matrix with examples each count equals the number of listed examples, each example's annotations belong to the named datum, labels and score, and counts equal those of the plain confusion matrix.",
     ["inputs", "configurations"], "all IoU matrices, scores, labels and thresholds within the bound",
     "tests compare a few literal scenes",
     [OD + "evaluator.py", OD + "utilities.py", OD + "computation.py"],
     [("unpack_examples / unpack_confusion_matrix_with_examples", OD + "utilities.py")],
     observe=["Evaluator.compute_examples", "Evaluator.compute_confusion_matrix_with_examples"])
prop("C11", "Filtering a detection evaluator equals evaluating the subset",
     "Metrics computed through Evaluator.filter or the datums argument equal the metrics of an evaluator that was only given the selected datums, ground truths and predictions, with the label set unchanged. Removing a ground truth or a prediction never removes another one from the counts.",
     ["inputs", "configurations"], "any selected subset of datums, ground truths or predictions, any IoUs, scores and thresholds within the bound",
     "tests filter one fixture by a few fixed expressions",
     [OD + "evaluator.py", OD + "shared.py"],
     [("Evaluator.filter id rewriting", OD + "evaluator.py")],
     observe=["Evaluator.filter", "Evaluator.compute_*(datums=...)"])
prop("C12", "Segmentation metrics count every pixel exactly once",
     "For every set of masks, the pixel confusion between ground-truth and predicted labels (with unlabelled pixels as background) counts each pixel exactly once; precision, recall, F1, IOU, mIOU, accuracy, the confusion-matrix ratios and the unmatched ratios are the quotients of these pixel counts, 0 when undefined, and stay within [0, 1]. Counts add up over datums.",
     ["inputs"], "all ground-truth and prediction bitmaps within the bound, label assignments, several datums",
     "tests use a few fixed bitmaps",
     [SS + "computation.py", SS + "loader.py", SS + "evaluator.py", SS + "utilities.py"],
     [("compute_intermediates / compute_metrics", SS + "computation.py"), ("pair rows and background remainder", SS + "loader.py")],
     observe=["Evaluator.compute_precision_recall_iou"])
prop("C13", "A segmentation assigns each pixel to at most one mask per side",
     "Whatever masks a Segmentation is built from, after construction no pixel belongs to two ground-truth masks or to two prediction masks: an overlapping pixel is kept by the earliest mask that contains it and removed from later ones, and pixels that do not overlap are unchanged. Masks of differing shape or non-boolean masks are rejected.",
     ["inputs"], "all stacks of masks within the bound", "tests use one two-mask overlap",
     [SS + "annotation.py"], [("Segmentation._validate_bitmasks accumulation", SS + "annotation.py")],
     observe=["Segmentation", "Evaluator.compute_precision_recall_iou"])
prop("C14", "Filtering a segmentation evaluator equals evaluating the subset",
     "Metrics computed through Evaluator.filter or the datums argument equal those of an evaluator given only the selected datums; filtering ground truths or predictions turns the removed masks' pixels into background and changes no other pixel, so the total number of pixels of a kept datum is preserved.",
     ["inputs", "configurations"], "any selection of datums, ground truths or predictions over all bitmaps within the bound",
     "tests filter one fixture", [SS + "evaluator.py", SS + "shared.py"], [("Evaluator.filter", SS + "evaluator.py")],
     observe=["Evaluator.filter", "Evaluator.compute_precision_recall_iou(datums=...)"])
prop("C15", "The cache returns exactly the rows that were written, in order",
     "Whatever sequence of row, batch and table writes is made and whatever batch size, rows-per-file and compression are configured, a reader over the flushed cache yields exactly the written rows in the order they were written, in memory and on disk, directly and after reloading from the path; a read with a filter or a column selection yields the corresponding part of them. Row counts agree, no row is lost while a buffer is pending once flush has returned, and no file exceeds the configured row target by more than the buffered batch plus the write that filled it.",
     ["histories", "configurations"], "all interleavings of write_rows/write_batch/write_table/flush within the bound, all batch sizes and rows-per-file",
     "tests write one pattern with two chunk sizes",
     ["cache/persistent.py", "cache/ephemeral.py"],
     [("FileCacheWriter buffer and file rotation", "cache/persistent.py"), ("MemoryCacheWriter buffer", "cache/ephemeral.py")],
     observe=["FileCacheWriter", "MemoryCacheWriter", "FileCacheReader", "MemoryCacheReader"])
prop("C16", "External sort yields the sorted permutation of its input",
     "For any source cache, sort keys and directions, batch size and sink (memory or file), the sink holds exactly the source's rows, each once, ordered by the requested keys over the whole sink rather than per fragment.",
     ["inputs", "configurations"], "all key values incl. ties, any split of rows into fragments, any batch size, all source/sink combinations",
     "tests sort one table with fixed values",
     ["cache/compute.py", "cache/persistent.py", "cache/ephemeral.py"],
     [("sort / _merge k-way merge with heap", "cache/compute.py"), ("sort_by", "cache/persistent.py")],
     observe=["cache.compute.sort"])
prop("C17", "Pages of examples partition the datums",
     "For any limit and offset, compute_examples returns records for exactly the datums at positions offset .. offset+limit-1 of the (filtered) datum sequence, so consecutive pages cover every datum once and none twice, whatever the chunking of the cache.",
     ["inputs", "configurations"], "all limits, offsets, chunkings and datum filters within the bound",
     "tests page one fixture with a few limits", ["cache/compute.py", CL + "evaluator.py", OD + "evaluator.py"],
     [("paginate_index", "cache/compute.py")], observe=["compute_examples(limit=, offset=)"])
prop("C18", "Metrics do not depend on storage, batching or loading",
     "For the same data, every metric of the classification, object-detection and semantic-segmentation evaluators is identical whether it was cached in memory or on disk, with any batch size, rows per file and finalize batch size, added in one call or one datum at a time, and whether the evaluator came from finalize or was reloaded from its path. Reloading restores the same labels, counts and metadata fields, and a reloaded evaluator can be filtered like the original.",
     ["inputs", "configurations"], "symbolic data with all chunk-size combinations within the bound", "tests use two fixed chunk sizes on fixed data",
     [CL + "evaluator.py", OD + "evaluator.py", SS + "evaluator.py", "cache/persistent.py", "cache/ephemeral.py", "cache/compute.py"],
     [("datum-aligned chunking", "cache/persistent.py"), ("running intermediates across batches", OD + "evaluator.py")],
     observe=["Loader.in_memory", "Loader.persistent", "Evaluator.load"])
prop("C19", "Cache lifecycle touches only its own files",
     "Creating a cache never overwrites an existing one silently: an existing path is refused unless deletion was requested; deleting a cache removes its own data and configuration files and leaves every other file in place (if foreign files remain in the directory the deletion reports it); loading a path without a cache raises instead of returning an empty result. A cache that has been deleted can be created again.",
     ["histories", "configurations"], "all short histories of create/write/load/delete with any foreign files present",
     "tests cover single fixed sequences", ["cache/persistent.py", CL + "shared.py", OD + "shared.py", SS + "shared.py"],
     [("FileCache.delete / create", "cache/persistent.py")], observe=["FileCacheWriter.create", "FileCacheReader.load", "delete"])
prop("C20", "LLM-guided text metrics are the documented function of the verdicts",
     "For every combination of extracted items, verdicts and scores returned by the model, answer correctness, answer relevance, bias, toxicity, context precision, context recall, context relevance, faithfulness, hallucination and summary coherence report the documented function of those verdicts (ratios, averaged precision@k, best F1 over ground truths), lie in their documented range and use the documented value for empty inputs (nothing extracted: 0, for faithfulness 1; context precision/recall 1 when both sides are empty and 0 when one is; a ground truth without statements counts 0 for recall; hallucination refuses to run without context). The model is asked about exactly the texts the metric is about, with the configured system prompt.",
     ["inputs"], "all verdict vectors up to the bound and all list lengths incl. zero", "tests mock a few fixed responses",
     [TG + "computation.py", TG + "manager.py", TG + "llm/generation.py"],
     [("calculate_* formulas", TG + "computation.py")], observe=["Evaluator.compute_*"])
prop("C21", "A malformed model response never becomes a metric value",
     "If the model's reply is not the JSON document the prompt asked for (missing braces, wrong keys, wrong types, wrong verdict strings, wrong number of verdicts, score out of range), the evaluator reports an error metric for that query and neither raises nor returns a number; a well-formed reply is never rejected, also when wrapped in extra text.",
     ["inputs", "fault_sequences"], "all replies of the modelled grammar within the bound", "tests try about twenty fixed malformed strings",
     [TG + "llm/validators.py", TG + "llm/utilities.py", TG + "llm/generation.py", TG + "manager.py"],
     [("validators and trim_and_load_json", TG + "llm/validators.py"), ("llm_guided_metric", TG + "manager.py")],
     observe=["Evaluator.compute_*"])
prop("C22", "Retries are bounded and stop at the first valid reply",
     "With N retries configured, a query makes at most N+1 attempts, returns the value of the first attempt whose replies are all valid, and reports an error metric exactly when every attempt was malformed; client failures other than malformed replies are not swallowed. Every query counts its own attempts, whatever earlier queries did.",
     ["fault_sequences"], "all good/bad reply sequences up to the bound, all retry counts", "tests use one fixed sequence",
     [TG + "manager.py"], [("llm_guided_metric retry loop", TG + "manager.py")], observe=["Evaluator.compute_*"])
prop("C23", "Invalid annotations and requests are rejected, valid ones kept as given",
     "A classification needs one string as ground truth, as many scores as labels and, to be loaded, at least one prediction. A detection annotation needs exactly one label without scores (ground truth) or one score per label (prediction), a prediction of a Detection needs scores, a bitmask is a boolean array with at least one pixel set and a polygon is a non-empty shapely polygon. A segmentation mask is boolean and its datum has two non-zero dimensions. Everything else is rejected with an error when the annotation is built or loaded; whatever satisfies these rules is accepted with its fields unchanged. Evaluators are not created without data, with metadata fields named like reserved columns, or filtered to disk without a path, and no metric is computed for an empty list of thresholds.",
     ["inputs", "configurations"], "all coordinates, scores, pixels, list lengths and dtypes within the bound", "tests try one instance of each",
     [CL + "annotation.py", OD + "annotation.py", SS + "annotation.py", CL + "loader.py", CL + "shared.py", OD + "shared.py", SS + "shared.py"],
     [("__post_init__ validation", OD + "annotation.py"), ("reserved field check", OD + "shared.py")], observe=["annotation constructors", "Loader", "Evaluator.compute_*"])
prop("C24", "ROUGE, BLEU and compute_all report the scores of exactly this query",
     "compute_rouge reports, for every requested ROUGE type and in that order, the score the ROUGE library gives this response against its best reference, with the type and stemming it was computed with. compute_sentence_bleu reports the BLEU library's score of the response's tokens against the tokens of all references (words, amounts and symbols; periods and blanks only separate) for the given weights, zero below 1e-9. Both refuse a query without context and BLEU refuses empty weights. compute_all reports each of the twelve metrics with the value the single query gives, and a malformed reply to one metric only affects that metric.",
     ["inputs", "configurations"], "all library scores, type selections, reference counts and verdicts within the bound", "tests compare a few fixed sentences and need downloaded metric scripts",
     [TG + "computation.py", TG + "manager.py", TG + "metric.py"], [("calculate_rouge_scores / calculate_sentence_bleu", TG + "computation.py"), ("Evaluator.compute_all", TG + "manager.py")],
     observe=["Evaluator.compute_rouge", "Evaluator.compute_sentence_bleu", "Evaluator.compute_all"])

prop("C25", "Evaluator info reports exactly what was loaded",
     "An evaluator's info gives the exact number of datums, labels, rows, ground-truth and prediction annotations or pixels that were loaded (a detection datum without any annotation leaves no trace) and the metadata fields it was created with. get_info with datum, ground-truth or prediction expressions gives the number of those that satisfy the expression, while the number of labels stays that of the whole dataset. The answer is the same in memory, on disk with any file size, and after reloading, and the info of a filtered evaluator describes what the filter kept.",
     ["inputs", "configurations"], "all metadata values, expressions, chunk sizes and annotation counts within the bound", "tests check the info of fixed datasets",
     [CL + "evaluator.py", OD + "evaluator.py", SS + "evaluator.py", CL + "utilities.py", OD + "utilities.py", SS + "utilities.py"],
     [("EvaluatorInfo / extract_counts", OD + "utilities.py")], observe=["Evaluator.info", "Evaluator.get_info"])

prop("C26", "Queries leave an evaluator as it was",
     "Computing metrics, confusion matrices, examples, pages of examples or info, and creating filtered evaluators, never changes what an evaluator answers later: every query gives the same answer whatever queries came before it and in whatever order. Answers already handed out and lists passed as arguments stay as they are, a filtered evaluator and its source do not influence each other, and neither do two evaluators in one process.",
     ["histories", "inputs"], "all sequences of queries, data and thresholds within the bound", "tests query each evaluator in one fixed order",
     [CL + "evaluator.py", OD + "evaluator.py", SS + "evaluator.py"],
     [("Evaluator.compute_* / filter / get_info", OD + "evaluator.py")], observe=["Evaluator.compute_*", "Evaluator.get_info", "Evaluator.filter"])

prop("C27", "Client wrappers pass conversations through and reject unusable replies",
     "The OpenAI and Mistral wrappers send the given messages, in order and unchanged, with the configured model (and seed), once per call, and return exactly the text of the reply, or an empty text when there is none. A reply that was cut off at the token limit, or (OpenAI) stopped by the content filter, raises an error and is never returned as text; failures of the request itself are not swallowed. Messages that are not a list of dictionaries with string role and content are rejected before anything is sent. The OpenAI wrapper's token totals are the exact sums over all its replies, including rejected ones, and over no other wrapper's. Evaluator.openai and Evaluator.mistral keep the given model, key, seed, retries and system prompt, and a seed excludes retries.",
     ["inputs", "fault_sequences", "configurations"], "all reply texts, finish reasons, token counts and message contents within the bound", "tests use a handful of fixed mocked replies",
     [TG + "llm/integrations.py", TG + "manager.py"], [("OpenAIWrapper / MistralWrapper", TG + "llm/integrations.py"), ("Evaluator.openai / Evaluator.mistral", TG + "manager.py")],
     observe=["OpenAIWrapper.__call__", "MistralWrapper.__call__", "Evaluator.openai", "Evaluator.mistral"])

BUILT = os.environ.get("BUILT")
import sys
sys.path[:0] = [V]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ["SYMX_MODE"] = "concrete"
from props import registry
reg = registry()
with open(V + "/properties.jsonl", "w") as f:
    for p, na, note in P:
        f.write(json.dumps(p) + "\n")
checks, nas = [], []
for p, na, note in P:
    pid = p["id"]
    ts = [n for n, t in reg.items() if pid in t["props"]]
    if na or not ts:
        nas.append(dict(property=pid, reason=na or "check not built yet"))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd=f"bash check.sh {pid}",
        thorough_cmd=f"VERIF_TIER=thorough bash check.sh {pid}",
        evidence_file=f"evidence/{pid}.json",
        technique="symbolic execution of the real Python code with SMT (z3) validity queries over every path; counterexamples replayed on the unpatched package",
        level="model_checking",
        level_note="bounded: every input value within the stated sizes is covered (" + "; ".join(reg[t]["bounds"] for t in ts) + "). Trusted: z3, the NumPy/pyarrow front ends in symx/ (cross-checked by replaying solver models on the real libraries), floats as exact reals.",
    ))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=nas,
         notes="No hooks in /repo: the checks load /repo/src through a custom importer. fix: commits are listed in known_findings.json.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
