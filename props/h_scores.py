"""ROUGE, BLEU and compute_all: library scores and single metrics reported as they are."""
import re
import sys
import types

from symx.logic import and_, is_sym, ite

from . import task
from .common import eq
from .h_textgen import ITEM_KEYS, MODEL, SYSTEM, TYPES, Request, call, query

NS = types.SimpleNamespace
TOKEN = re.compile(r"\w+|\$[\d]+|[^\s\.]+")  # words, amounts and symbols; periods and blanks separate
TEXTS = ["The cat sat. On $5 mats!", "cat  sat\n...end", "a.b.c 3.50", "Ünï—code, ok", "..."]
KINDS = ["rouge1", "rouge2", "rougeL", "rougeLsum"]


def top(xs):
    best = xs[0]
    for x in xs[1:]:
        best = ite(x >= best, x, best) if is_sym(x) or is_sym(best) else max(x, best)
    return best


class Library:
    """evaluate and nltk with the score of every (prediction, reference) left
    open: one symbolic number per distinct request."""

    def __init__(self, ctx, weird=False):
        self.ctx, self.seen, self.weird = ctx, {}, weird

    def number(self, *key):
        if key not in self.seen:
            self.seen[key] = self.ctx.real(f"s{len(self.seen)}", 0.0, 1.0, dec=True)
        return self.seen[key]

    def rouge(self, pred, refs, kind, stem):
        refs = [refs] if isinstance(refs, str) else list(refs)
        return top([self.number("rouge", pred, r, kind, bool(stem)) for r in refs])

    def bleu(self, refs, hyp, weights):
        return self.number("bleu", tuple(tuple(r) for r in refs), tuple(hyp), tuple(weights))

    def __enter__(self):
        me = self

        class Rouge:
            def compute(self, *, predictions, references, rouge_types=None, use_stemmer=False, use_aggregator=True, **kw):
                out = {}
                for k in rouge_types or KINDS:
                    per = [me.rouge(p, r, k, use_stemmer) for p, r in zip(predictions, references)]
                    out[k] = per if not use_aggregator else sum(per[1:], per[0]) / len(per)
                return out

        ev = types.ModuleType("evaluate")
        ev.load = lambda name, *a, **k: Rouge() if name == "rouge" else None
        import nltk.translate
        import nltk.translate.bleu_score as B

        def sentence_bleu(references, hypothesis, weights=(0.25, 0.25, 0.25, 0.25), smoothing_function=None, auto_reweigh=False, **kw):
            if smoothing_function is not None or auto_reweigh:
                return me.number("smoothed")
            return me.bleu(references, hypothesis, weights)

        def corpus_bleu(list_of_references, hypotheses, weights=(0.25, 0.25, 0.25, 0.25), smoothing_function=None, auto_reweigh=False, **kw):
            if len(hypotheses) != 1:
                return me.number("corpus")
            return sentence_bleu(list_of_references[0], hypotheses[0], weights, smoothing_function, auto_reweigh)

        self.undo = [(m, n, getattr(m, n)) for m in (nltk.translate, B) for n in ("sentence_bleu", "corpus_bleu") if hasattr(m, n)]
        for m, n, _ in self.undo:
            setattr(m, n, {"sentence_bleu": sentence_bleu, "corpus_bleu": corpus_bleu}[n])
        self.old = sys.modules.get("evaluate")
        sys.modules["evaluate"] = ev
        return self

    def __exit__(self, *a):
        for m, n, v in self.undo:
            setattr(m, n, v)
        if self.old is None:
            sys.modules.pop("evaluate", None)
        else:
            sys.modules["evaluate"] = self.old


def qr(ctx, resp, refs, ctxs=("c",)):
    T = ctx.mod("text_generation")
    return T.QueryResponse(query="q", response=resp, context=T.Context(groundtruth=list(refs), prediction=list(ctxs)))


def check_rouge(ctx, lib, got, resp, refs, kinds, stem):
    ctx.check(len(got) == len(kinds), "one metric per ROUGE type")
    for m, k in zip(got, kinds):
        ctx.check(m.type == "ROUGE" and m.parameters == {"rouge_type": k, "use_stemmer": stem}, "ROUGE type and parameters")
        ctx.check(eq(m.value, lib.rouge(resp, refs, k, stem)), "ROUGE score of the best reference")


def check_bleu(ctx, lib, m, resp, refs, weights):
    want = lib.bleu([TOKEN.findall(r) for r in refs], TOKEN.findall(resp), weights)
    ctx.check(m.type == "BLEU" and list(m.parameters["weights"]) == list(weights) and set(m.parameters) == {"weights"}, "BLEU parameters")
    ctx.check(eq(m.value, ite(want >= 1e-9, want, 0.0)), "BLEU score of the tokens, zero below 1e-9")


@task(
    "C24",
    lambda tier: [dict(n=n) for n in (1, 2, 3, 7)],
    bounds="responses and 1-3 or 7 references from 5 texts with punctuation, periods and non-ASCII letters; every selection of ROUGE types up to 2 and all four, with and without stemming; library scores symbolic in [0,1]; weights of 1-5 n-grams; two queries one after the other (one with 7 references)",
    assumptions=["the scores themselves are those of the packages evaluate/rouge_score and nltk, replaced by one symbolic number per distinct request"],
)
def library(ctx, n):
    T = ctx.mod("text_generation")
    with Library(ctx) as lib:
        for turn in range(2 if n < 7 else 1):
            resp = ctx.choose(f"p{turn}", TEXTS[: 5 if n == 1 else 2])
            first = ctx.choose(f"r{turn}", [0, 1, 3])
            refs = [TEXTS[(first + i) % len(TEXTS)] + (" more" if i >= len(TEXTS) else "") for i in range(n)]
            q = qr(ctx, resp, refs)
            if turn == 0:
                kinds = ctx.choose("kinds", [None, ["rouge1"], ["rougeL", "rouge2"], ["rouge2", "rouge1"], list(KINDS[::-1])])
                stem = ctx.flag("stem")
                got = T.Evaluator.compute_rouge(q, use_stemmer=stem) if kinds is None else T.Evaluator.compute_rouge(q, rouge_types=list(kinds), use_stemmer=stem)
                check_rouge(ctx, lib, got, resp, refs, kinds or KINDS, stem)
                ws = ctx.choose("ws", [None, [1.0], [0.5, 0.5], (0.25, 0.25, 0.5), [0.2] * 5])
                m = T.Evaluator.compute_sentence_bleu(q) if ws is None else T.Evaluator.compute_sentence_bleu(q, weights=ws)
                check_bleu(ctx, lib, m, resp, refs, ws or [0.25] * 4)
            else:
                check_rouge(ctx, lib, T.Evaluator.compute_rouge(q), resp, refs, KINDS, False)
                check_bleu(ctx, lib, T.Evaluator.compute_sentence_bleu(q), resp, refs, [0.25] * 4)


@task("C24", lambda tier: [dict()], bounds="queries without a context and BLEU without weights")
def refused(ctx):
    T = ctx.mod("text_generation")
    q = T.QueryResponse(query="q", response="r")
    with Library(ctx) as lib:
        for f in (lambda: T.Evaluator.compute_rouge(q), lambda: T.Evaluator.compute_sentence_bleu(q), lambda: T.Evaluator.compute_sentence_bleu(qr(ctx, "a", ["b"]), weights=[])):
            try:
                f()
            except ValueError:
                continue
            ctx.check(False, "not refused")
        ctx.check(lib.seen == {}, "nothing was scored")


class Script:
    """a model whose reply is a function of the prompt alone: verdicts are one
    symbolic text per (prompt, item); chosen prompts get a malformed reply."""

    model_name = MODEL

    def __init__(self, ctx, items, bad):
        self.ctx, self.items, self.bad = ctx, items, bad
        self.order, self.calls = {}, 0

    def __call__(self, messages):
        self.calls += 1
        req = Request(messages)
        k = self.order.setdefault(req.content, len(self.order))
        if k == self.bad:
            return "no"
        if req.extract is not None:
            # also answers a request for a score: the first number is the score
            names = [f"st~{req.extract}{i}~" for i in range(self.items)]
            return '{"score": 4, ' + self.ctx.json({x: names for x in ITEM_KEYS})[1:] if not self.ctx.symbolic else self.ctx.json({"score": 4, **{x: names for x in ITEM_KEYS}})
        of_resp = [i for t, i in req.items if t.startswith("rsp")]
        of_gt = [i for t, i in req.items if t.startswith("gtx")]
        if of_resp and of_gt:
            return self.ctx.json({"TP": ["a"] * len(of_resp), "FP": [], "FN": ["b"] * self.ctx.choose(f"fn{k}", [0, 1])})
        n = len(of_resp) or len(of_gt) or len(req.ctxs)
        return self.ctx.json({"verdicts": [{"analysis": "x", "verdict": self.ctx.choose(f"v{k}.{i}", ["yes", "no"])} for i in range(n)]})


@task(
    "C24",
    lambda tier: [dict(items=1, ctxs=1, gts=1, bad=b) for b in [None] + list(range(0, 14, 1 if tier == "thorough" else 3))] + [dict(items=1, ctxs=1, gts=2, bad=None)],
    bounds="compute_all for 1 item per text, 1 context and 1-2 ground truths, every verdict, any one prompt answered with a malformed reply, 0-1 retries; library scores symbolic",
    assumptions=["the scripted model answers equal prompts equally"],
)
def everything(ctx, items, ctxs, gts, bad):
    T = ctx.mod("text_generation")
    retries = 1 if bad is not None and bad % 2 else 0
    q = query(ctx, gts, ctxs)
    types_ = ["rougeL"] if items == 1 else ["rouge1", "rougeL"]
    with Library(ctx) as lib:
        model = Script(ctx, items, bad)
        ev = T.Evaluator(client=model, retries=retries, default_system_prompt=SYSTEM)
        out = ev.compute_all(q, bleu_weights=[0.5, 0.5], rouge_types=list(types_), rouge_use_stemmer=True)
        ctx.check({str(getattr(k, "value", k)) for k in out} == set(TYPES.values()) | {"ROUGE", "BLEU"}, "every metric once")
        by = {str(getattr(k, "value", k)): v for k, v in out.items()}
        for name, typ in TYPES.items():
            ctx.check(len(by[typ]) == 1, "one metric per type")
            a, b = by[typ][0], call(ev, name, q)
            ctx.check(str(getattr(a.type, "value", a.type)) == str(getattr(b.type, "value", b.type)), f"{typ} kind")
            ctx.check(eq(a.value, b.value) if not isinstance(a.value, dict) else a.value == b.value, f"{typ} value")
            ctx.check(a.parameters == b.parameters, f"{typ} parameters")
        check_rouge(ctx, lib, by["ROUGE"], q.response, q.context.groundtruth, types_, True)
        ctx.check(len(by["BLEU"]) == 1, "one BLEU metric")
        check_bleu(ctx, lib, by["BLEU"][0], q.response, q.context.groundtruth, [0.5, 0.5])
