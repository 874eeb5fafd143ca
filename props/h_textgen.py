"""LLM-guided text generation metrics, driven by a scripted model."""
import json
import re

from symx.logic import and_, approx, is_sym, isum, ite, not_, or_, ssum

from . import task
from .common import eq


def Q(tier, quick, thorough):
    return thorough if tier == "thorough" else quick

MODEL = "scripted-model"
SYSTEM = "sys~prompt~ Be {fair} and \"brief\".\n\n  100% of the time; " + "really, " * 300 + "END."
QUERY, RESP = "qry~0~", "rsp~0~"

TYPES = {
    "answer_correctness": "AnswerCorrectness",
    "answer_relevance": "AnswerRelevance",
    "bias": "Bias",
    "context_precision": "ContextPrecision",
    "context_recall": "ContextRecall",
    "context_relevance": "ContextRelevance",
    "faithfulness": "Faithfulness",
    "hallucination": "Hallucination",
    "summary_coherence": "SummaryCoherence",
    "toxicity": "Toxicity",
}
NEEDS_CONTEXT = [
    "answer_correctness", "context_precision", "context_recall", "context_relevance", "faithfulness", "hallucination",
]
ITEM_KEYS = ["claims", "opinions", "statements"]


def gt(i):
    return f"gtx~{i}~"


def cx(j):
    return f"ctx~{j}~"


#: what the texts contain besides the token that identifies them: braces, quotes,
#: percent signs, blanks, line breaks, capitals, other scripts, and a great length
ODD = " Some {odd} {0} 100%s \"TEXT\"  with 'quotes',\n\n\ttabs & \u00fc\u4e2d <b> \\n $x; "


def full(token, long=True):
    return token + ODD + ("words and more, " * 600 if long else "") + "The END."


def renderings(text):
    return {text, repr(text)[1:-1], json.dumps(text)[1:-1], json.dumps(text, ensure_ascii=False)[1:-1]}


FORMS = {}


def forms(token, long=True):
    if (token, long) not in FORMS:
        FORMS[token, long] = renderings(full(token, long))
    return FORMS[token, long]


class Request:
    """what a prompt is about, read off the texts it contains."""

    def __init__(self, messages):
        self.content = messages[-1]["content"]
        self.query = QUERY in self.content
        self.resp = re.search(r"(?<!st~)rsp~0~", self.content) is not None
        self.gts = sorted({int(i) for i in re.findall(r"(?<!st~)gtx~(\d+)~", self.content)})
        self.ctxs = [int(j) for j in re.findall(r"ctx~(\d+)~", self.content)]
        self.items = re.findall(r"st~((?:rsp|gtx)~\d+~)(\d+)~", self.content)
        texts = ([QUERY] if self.query else []) + ([RESP] if self.resp else []) + [gt(i) for i in self.gts] + [cx(j) for j in set(self.ctxs)]
        #: texts that the prompt does not contain as they were given
        self.altered = [t for t in texts if not any(f in self.content for f in forms(t))]
        self.altered += [f"st~{t}{k}~" for t, k in set(self.items) if not any(f in self.content for f in forms(f"st~{t}{k}~", False))]
        #: the prompt asks for the items of one text
        self.extract = None
        if not self.query and not self.ctxs and not self.items:
            if self.resp and not self.gts:
                self.extract = RESP
            elif len(self.gts) == 1 and not self.resp:
                self.extract = gt(self.gts[0])
        self.item_gts = sorted({t for t, _ in self.items if t.startswith("gtx")})


class Model:
    """the scripted model: `items[text]` is the number of items extracted from
    a text; verdict texts are drawn from the context of the run."""

    model_name = MODEL

    def __init__(self, ctx, items, nctx=0, allowed=("yes", "no")):
        self.ctx, self.items, self.nctx, self.allowed = ctx, items, nctx, allowed
        self.cache = {}
        self.calls = 0
        self.ctxlist = list(range(nctx))  # which context text stands at each place
        self.repeat = None  # items repeat after that many
        self.crowd = False  # only some verdicts are left open

    def item(self, k):
        return k % self.repeat if self.repeat else k

    def verdict(self, name):
        if self.crowd and int(name.rsplit(".", 1)[1]) % 6 != 2:
            return self.allowed[0] if int(name.rsplit(".", 1)[1]) % 4 else self.allowed[-1]
        if name not in self.cache:
            v = self.ctx.str(name)
            self.ctx.assume(or_(*[v == a for a in self.allowed]))
            self.cache[name] = v
        return self.cache[name]

    def yes(self, key, n):
        return [self.verdict(f"v.{key}.{k}") == "yes" for k in range(n)]

    def verdicts(self, key, n):
        return self.ctx.json({"verdicts": [{"analysis": "because", "verdict": self.verdict(f"v.{key}.{k}")} for k in range(n)]})

    def extraction(self, text):
        names = [full(f"st~{text}{self.item(k)}~", False) for k in range(self.items[text])]
        return self.ctx.json({k: names for k in ITEM_KEYS})

    def in_order(self, req, texts, nctx):
        """the prompt lists the items of the given texts, and the contexts, completely and in order."""
        for t in texts:
            want = [str(self.item(k)) for k in range(self.items[t])]
            got = [k for u, k in req.items if u == t]
            self.ctx.check(got == want, f"the prompt does not list the items of {t}: {got}")
        self.ctx.check({t for t, _ in req.items} <= set(texts), "the prompt lists items of another text")
        if nctx is not None:
            self.ctx.check(req.ctxs == self.ctxlist[:nctx], f"the prompt does not list the contexts: {req.ctxs}")

    def __call__(self, messages):
        self.calls += 1
        self.ctx.check(
            messages[0]["role"] == "system" and SYSTEM in messages[0]["content"] and messages[-1]["role"] == "user",
            "system prompt or roles are wrong",
        )
        req = Request(messages)
        self.ctx.check(not req.altered, f"the prompt does not contain these texts as they were given: {req.altered}")
        if req.extract is not None:
            return self.extraction(req.extract)
        return self.answer(req)


def evaluator(ctx, model, retries=0):
    T = ctx.mod("text_generation")
    return T.Evaluator(client=model, retries=retries, default_system_prompt=SYSTEM)


def query(ctx, gts=None, ctxs=None):
    T = ctx.mod("text_generation")
    c = None
    if gts is not None or ctxs is not None:
        ctxs = ctxs if isinstance(ctxs, list) else list(range(ctxs or 0))
        c = T.Context(groundtruth=[full(gt(i)) for i in range(gts or 0)], prediction=[full(cx(j)) for j in ctxs])
    return T.QueryResponse(query=full(QUERY), response=full(RESP), context=c)


def call(ev, metric, q):
    return getattr(ev, "compute_" + metric)(q)


def good(ctx, m, metric, retries=0):
    ctx.check(m is not None and m.type == TYPES[metric], f"{metric} reported {m}")
    ctx.check(m.parameters["evaluator"] == MODEL, "evaluator name")
    ctx.check(eq(m.parameters["retries"], retries), "retries parameter")
    hi = 5 if metric == "summary_coherence" else 1
    ctx.check(and_(m.value >= 0, m.value <= hi), f"{metric} is out of range")
    return m.value


def ratio(ctx, value, yes, msg):
    n = len(yes)
    ctx.check(approx(value * n, isum(yes) * 1.0), msg)


class RatioModel(Model):
    about = RESP
    uses = ()

    def answer(self, req):
        if "ctx" in self.uses and "items" not in self.uses:
            self.in_order(req, [], self.nctx)
            n = self.nctx
        else:
            self.in_order(req, [RESP], self.nctx if "ctx" in self.uses else None)
            n = self.items[RESP]
        if "query" in self.uses:
            self.ctx.check(req.query, "the prompt lacks the query")
        if "resp" in self.uses:
            self.ctx.check(req.resp, "the prompt lacks the response")
        return self.verdicts("r", n)


USES = {
    "answer_relevance": ("items", "query"),
    "bias": ("items",),
    "toxicity": ("items",),
    "faithfulness": ("items", "ctx"),
    "hallucination": ("ctx", "resp"),
    "context_relevance": ("ctx", "query"),
}


@task(
    "C20",
    lambda tier: [dict(metric=m, n=n) for m in USES for n in range(Q(tier, 5, 8))] + [dict(metric=m, n=3, twice=True) for m in USES] + [dict(metric=m, n=25, crowd=True) for m in USES],
    bounds="answer relevance, bias, toxicity, faithfulness, hallucination, context relevance: 0-4 items (7 thorough) with every verdict text allowed by the prompt (symbolic strings); items or contexts that repeat; 4 open verdicts among 25",
)
def ratios(ctx, metric, n, twice=False, crowd=False):
    uses = USES[metric]
    allowed = ("yes", "no", "idk") if metric == "answer_relevance" else ("yes", "no")
    over_items = "items" in uses
    nctx = (ctx.choose("nctx", [0, 1, 2]) if over_items else n) if "ctx" in uses else None
    model = RatioModel(ctx, {RESP: n if over_items else 1}, nctx or 0, allowed)
    model.uses, model.crowd = uses, crowd
    if twice:
        model.repeat = 2
        model.ctxlist = [j % 2 for j in range(nctx or 0)]
    ev = evaluator(ctx, model)
    q = query(ctx, 1, model.ctxlist) if "ctx" in uses else query(ctx)
    if metric == "hallucination" and n == 0:
        try:
            call(ev, metric, q)
        except ValueError:
            return
        ctx.check(False, "hallucination without context is not refused")
    v = good(ctx, call(ev, metric, q), metric)
    if metric == "faithfulness" and nctx == 0:
        ctx.check(eq(v, 0.0), "faithfulness without context")
    elif n == 0:
        ctx.check(eq(v, 1.0 if metric == "faithfulness" else 0.0), f"{metric} of nothing")
    else:
        ratio(ctx, v, model.yes("r", n), f"{metric} is not the share of 'yes'")


class PrecisionModel(Model):
    def answer(self, req):
        self.in_order(req, [], self.nctx)
        self.ctx.check(req.query and len(req.gts) == 1, "the prompt lacks the query or the ground truth")
        return self.verdicts(f"g{req.gts[0]}", self.nctx)


@task(
    "C20",
    lambda tier: [dict(n=n, g=g) for n in range(Q(tier, 7, 10)) for g in range(Q(tier, 5, 6)) if n * g <= Q(tier, 10, 12)] + [dict(n=4, g=1, same=[0, 1, 0, 1]), dict(n=3, g=2, same=[0, 0, 1]), dict(n=15, g=2, crowd=True)],
    bounds="context precision: 0-6 contexts (9 thorough) and 0-4 ground truths (5 thorough), at most 10 (12) verdicts in all, every verdict vector; contexts that repeat; 6 open verdicts among 30",
)
def context_precision(ctx, n, g, same=None, crowd=False):
    model = PrecisionModel(ctx, {}, n)
    model.ctxlist, model.crowd = same or model.ctxlist, crowd
    v = good(ctx, call(evaluator(ctx, model), "context_precision", query(ctx, g, model.ctxlist)), "context_precision")
    if n == 0 or g == 0:
        ctx.check(eq(v, 1.0 if n == g else 0.0), "context precision of nothing")
        return
    rel = [or_(*[model.yes(f"g{i}", n)[k] for i in range(g)]) for k in range(n)]
    total = ssum(ite(rel[k], isum(rel[: k + 1]) * 1.0, 0.0) / (k + 1) for k in range(n))
    ctx.check(ite(isum(rel) > 0, approx(v * isum(rel), total), approx(v, 0.0)), "context precision")


class RecallModel(Model):
    def answer(self, req):
        # texts without items cannot be told apart: they get the same (empty) reply
        t = req.item_gts[0] if req.item_gts else None
        self.ctx.check(len(req.item_gts) <= 1, "statements of several ground truths are mixed")
        self.in_order(req, [t] if t else [], self.nctx)
        return self.verdicts(t, self.items[t] if t else 0)


@task(
    "C20",
    lambda tier: Q(
        tier,
        [dict(n=c, sizes=s) for c in (0, 2) for s in ([], [0], [1], [3], [0, 2], [1, 2], [2, 3], [1, 1, 2], [2, 1, 2], [2, 0, 1], [1, 1, 1, 1])] + [dict(n=1, sizes=[2, 2, 2]), dict(n=4, sizes=[1, 2]), dict(n=2, sizes=[7]), dict(n=3, sizes=[3, 2], twice=True), dict(n=12, sizes=[13, 14], crowd=True)],
        [dict(n=c, sizes=s) for c in (0, 1, 3) for s in ([], [0], [1], [9], [0, 0], [0, 2], [1, 3], [3, 3], [1, 2, 3], [2, 0, 2], [3, 3, 3], [2, 2, 2, 2])],
    ),
    bounds="context recall: up to 4 ground truths with 0-7 statements each (at most 7 (9) in all), every verdict vector; statements and contexts that repeat; 5 open verdicts among 27",
)
def context_recall(ctx, n, sizes, twice=False, crowd=False):
    model = RecallModel(ctx, {gt(i): k for i, k in enumerate(sizes)}, n)
    model.crowd = crowd
    if twice:
        model.repeat, model.ctxlist = 2, [j % 2 for j in range(n)]
    v = good(ctx, call(evaluator(ctx, model), "context_recall", query(ctx, len(sizes), model.ctxlist)), "context_recall")
    if n == 0 or not sizes:
        ctx.check(eq(v, 1.0 if n == len(sizes) else 0.0), "context recall of nothing")
        return
    each = [isum(model.yes(gt(i), k)) / (k * 1.0) if k else 0.0 for i, k in enumerate(sizes)]
    ctx.check(or_(*[approx(v, e) for e in each]), "context recall is not the recall of any ground truth")
    ctx.check(and_(*[v >= e - 1e-6 for e in each]), "context recall is not the best over the ground truths")


class CorrectnessModel(Model):
    plain = False  # concrete statements, for edits of the reply's text

    def split(self, t):
        """how many of the response's statements are TP, and the number of FN."""
        npred = self.items[RESP]
        k = self.ctx.choose(f"tp.{t}", list(range(npred + 1)))
        f = self.ctx.choose(f"fn.{t}", list(range(self.items.get(t, 0) + 1)))
        return k, npred - k, f

    def answer(self, req):
        self.ctx.check(req.query and len(req.item_gts) <= 1, "answer correctness prompt")
        t = req.item_gts[0] if req.item_gts else "empty"
        self.in_order(req, [RESP] + ([t] if t != "empty" else []), None)
        a, b, f = self.split(t)
        mk = lambda p, n: [f"{p}{i}" if self.plain else self.ctx.str(f"{p}{t}{i}") for i in range(n)]
        return self.ctx.json({"TP": mk("a", a), "FP": mk("b", b), "FN": mk("c", f)})


@task(
    "C20",
    lambda tier: Q(
        tier,
        [dict(npred=p, sizes=s) for p in (0, 1, 3) for s in ([], [0], [2], [3], [1, 2], [2, 1])] + [dict(npred=2, sizes=[1, 1, 1]), dict(npred=1, sizes=[1, 1, 1, 1]), dict(npred=6, sizes=[5]), dict(npred=3, sizes=[3], twice=True), dict(npred=14, sizes=[12])],
        [dict(npred=p, sizes=s) for p in (0, 1, 2, 4) for s in ([], [0], [2], [4], [1, 2], [0, 3], [2, 1, 1], [1, 1, 1])],
    ),
    bounds="answer correctness: 0-6 (or 14) response statements, up to 4 ground truths with 0-5 (12) statements, every TP/FP/FN split; statements that repeat",
)
def answer_correctness(ctx, npred, sizes, twice=False):
    model = CorrectnessModel(ctx, {RESP: npred, **{gt(i): k for i, k in enumerate(sizes)}})
    model.repeat = 2 if twice else None
    v = good(ctx, call(evaluator(ctx, model), "answer_correctness", query(ctx, len(sizes), 1)), "answer_correctness")
    best = 0.0
    for i, k in enumerate(sizes):
        tp, fp, fn = model.split(gt(i) if k else "empty")
        best = max(best, 2 * tp / (2 * tp + fp + fn) if tp else 0.0)
    ctx.check(approx(v, best), "answer correctness is not the best F1")


@task("C20", [dict(metric=m) for m in TYPES], bounds="every metric without a client, and every context metric without a context")
def preconditions(ctx, metric):
    T = ctx.mod("text_generation")
    model = Model(ctx, {})
    r = ctx.int("retries", 0, 2)
    try:
        call(T.Evaluator(client=None, retries=r), metric, query(ctx, 1, 1))
    except ValueError:
        pass
    else:
        ctx.check(False, "a metric was computed without a client")
    if metric in NEEDS_CONTEXT:
        try:
            call(evaluator(ctx, model, r), metric, query(ctx))
        except ValueError:
            ctx.check(model.calls == 0, "the model was asked")
        else:
            ctx.check(False, f"{metric} was computed without a context")


# ------------------------------------------------------------ free text


def first_integer(ctx, s):
    """leftmost run of digits with an optional minus directly before it."""
    code = lambda c: ord(c) if isinstance(c, str) else c
    cs = [code(c) for c in (s if isinstance(s, str) else s.cs)]
    dig = lambda c: ctx.decide(and_(c >= 48, c <= 57))
    for i, c in enumerate(cs):
        if dig(c):
            v, j = 0, i
            while j < len(cs) and dig(cs[j]):
                v = v * 10 + (cs[j] - 48)
                j += 1
            return -v if i and ctx.decide(cs[i - 1] == 45) else v
    return None


class Fixed(Model):
    def __init__(self, ctx, reply):
        super().__init__(ctx, {})
        self.reply = reply

    def __call__(self, messages):
        self.calls += 1
        self.seen = Request(messages)
        return self.reply


def is_error(ctx, m, why, retries=0):
    ctx.check(m is not None and m.type == "Error", f"{why} became {getattr(m, 'type', None)} {getattr(m, 'value', None)}")
    ctx.check(m.value["type"] == "InvalidLLMResponseError" and isinstance(m.value["message"], str), "error description")
    ctx.check(m.parameters["evaluator"] == MODEL and bool(eq(m.parameters["retries"], retries)), "error parameters")


@task(
    ["C20", "C21"],
    lambda tier: [dict(n=n, pre=p) for n in range(Q(tier, 4, 6)) for p in ["", "Score: "]],
    bounds="summary coherence: every reply of up to 3 printable ASCII characters (5 thorough), alone and after 'Score: '",
)
def coherence(ctx, n, pre):
    reply = pre + ctx.text("c", n)
    model = Fixed(ctx, reply)
    m = call(evaluator(ctx, model), "summary_coherence", query(ctx))
    ctx.check(model.seen.query and model.seen.resp, "the prompt lacks the text or its summary")
    want = first_integer(ctx, reply)
    if want is None or not ctx.decide(and_(want >= 1, want <= 5)):
        is_error(ctx, m, "a reply without a score from 1 to 5")
    else:
        ctx.check(eq(good(ctx, m, "summary_coherence"), want), "summary coherence is not the reply's score")


@task(
    "C21",
    lambda tier: [dict(metric=m, n=n) for m in TYPES if m != "summary_coherence" for n in range(Q(tier, 4, 5))],
    bounds="every reply of up to 3 printable ASCII characters (4 thorough) to the first question of every metric (JSON decided per character class)",
)
def garbage(ctx, metric, n):
    model = Fixed(ctx, ctx.text("c", n))
    is_error(ctx, call(evaluator(ctx, model), metric, query(ctx, 1, 1)), "garbage")


@task(
    "C21",
    lambda tier: [dict(a=a, b=b) for a in range(3) for b in range(3) if a + b <= Q(tier, 3, 4)],
    bounds="a valid reply between up to 2 arbitrary characters on each side (3 in total, 4 thorough)",
)
def wrapped(ctx, a, b):
    v = ctx.str("v")
    ctx.assume(or_(v == "yes", v == "no"))
    pre, post = ctx.text("p", a), ctx.text("q", b)
    doc = ctx.json({"verdicts": [{"analysis": "a {brace}", "verdict": v}]})
    model = Fixed(ctx, pre + doc + post)
    m = call(evaluator(ctx, model), "context_relevance", query(ctx, 0, 1))
    codes = [ord(c) if isinstance(c, str) else c for t in (pre, post) for c in (t if isinstance(t, str) else t.cs)]
    if ctx.decide(or_(False, *[or_(c == 123, c == 125) for c in codes])):
        if m.type != "Error":
            ctx.check(approx(good(ctx, m, "context_relevance"), ite(v == "yes", 1.0, 0.0)), "a value that the reply does not state")
    else:
        ctx.check(approx(good(ctx, m, "context_relevance"), ite(v == "yes", 1.0, 0.0)), "a wrapped reply is misread")


# ------------------------------------------------------------ structure


def junk(ctx, name):
    """a JSON value that is not a string."""
    return ctx.choose(name, [None, 1, 0.5, True, [], ["yes"], {}, {"yes": 1}])


class Mutant(Model):
    """replies correctly except for one deviation in reply number `at`."""

    def __init__(self, ctx, base, at, kind):
        self.base, self.at, self.kind = base, at, kind
        self.calls = 0
        self.ctx = ctx
        self.malformed = False
        self.texts = []

    def __call__(self, messages):
        doc = self.base(messages)
        k = self.calls
        self.calls += 1
        if k != self.at:
            return doc
        import json

        d = json.loads(doc) if not self.ctx.symbolic else self.ctx.world.mods["json"].loads(doc)
        return self.mutate(d, doc)

    def mutate(self, d, doc):
        ctx, kind = self.ctx, self.kind
        keys = sorted(d)
        lists = {k: list(d[k]) for k in keys}
        self.malformed = True
        if kind == "cut":
            n = ctx.choose("cut", [1, 2, len(doc) // 2])
            return doc[:-n]
        if kind == "no brace":
            return doc[1:]
        if kind == "twice":
            return doc + doc
        if kind == "list":
            if ctx.flag("outer"):  # text around the document does not matter
                self.malformed = False
                return "[" + doc + "]"
            return doc[1:-1]
        if kind == "key":
            how = ctx.choose("how", ["missing", "renamed", "upper"])
            if "verdicts" in d or "TP" not in d:
                for k in keys:
                    del lists[k]
                    if how != "missing":
                        lists[k.upper() if how == "upper" else k + "_"] = d[k]
            else:
                k = ctx.choose("which", keys)
                del lists[k]
                if how != "missing":
                    lists[k.lower() if how == "upper" else k + "_"] = d[k]
            return ctx.json(lists)
        if kind == "extra":
            lists["extra"] = junk(ctx, "x")
            self.malformed = False
            return ctx.json(lists)
        if kind == "container":
            bad = ctx.choose("bad", [None, 1, "yes", {}, True])
            k = ctx.choose("which", keys) if "TP" in d else None
            return ctx.json({q: (bad if k is None or q == k else lists[q]) for q in keys})
        if kind == "length":
            if "verdicts" in d:
                vs = lists["verdicts"]
                vs = vs + [{"analysis": "x", "verdict": "no"}] if ctx.flag("longer") else vs[:-1]
                self.malformed = len(vs) != len(lists["verdicts"])
                return ctx.json({"verdicts": vs})
            if "TP" in d:
                k = ctx.choose("which", keys)
                lists[k] = lists[k] + ["x"] * ctx.choose("more", [1, 4])
                self.malformed = k != "FN" or len(lists["FN"]) > self.base.items[gt(0)]
                return ctx.json(lists)
            self.malformed = False  # any number of items is fine
            return doc
        # one element is wrong
        k = keys[0] if "TP" not in d else ctx.choose("which", keys)
        if not lists[k]:
            self.malformed = False
            return doc
        i = ctx.choose("i", list(range(len(lists[k]))))
        if "verdicts" not in d:
            bad = junk(ctx, "x")
            for q in keys if "TP" not in d else [k]:
                lists[q][i] = bad
            return ctx.json(lists)
        el = dict(lists[k][i])
        if kind == "element":
            lists[k][i] = ctx.choose("el", [None, 1, "yes", [], ["verdict", "analysis"]])
        elif kind == "fields":
            how = ctx.choose("how", ["no analysis", "no verdict", "extra", "renamed", "empty"])
            if how in ("no analysis", "empty"):
                del el["analysis"]
            if how in ("no verdict", "empty"):
                del el["verdict"]
            if how == "extra":
                el["reason"] = "x"
            if how == "renamed":
                el["Verdict"] = el.pop("verdict")
            lists[k][i] = el
        elif kind == "verdict type":
            el["verdict"] = junk(ctx, "x")
            lists[k][i] = el
        else:  # verdict text: any string
            s = ctx.str("any")
            el["verdict"] = s
            lists[k][i] = el
            self.texts.append(s)
            self.malformed = not ctx.decide(or_(*[s == a for a in self.base.allowed]))
        return ctx.json(lists)


def base_model(ctx, metric, size=2):
    """(model, query, replies per attempt) of a small, valid dialogue."""
    if metric == "context_precision":
        return PrecisionModel(ctx, {}, size), query(ctx, 2, size), 2
    if metric == "context_recall":
        return RecallModel(ctx, {gt(0): size}, 1), query(ctx, 1, 1), 2
    if metric == "answer_correctness":
        return CorrectnessModel(ctx, {RESP: max(size, 1), gt(0): size}), query(ctx, 1, 1), 3
    if metric == "summary_coherence":
        v = ctx.int("score", 1, 5)
        for k in range(1, 6):
            if ctx.decide(v == k):
                return Fixed(ctx, f"{k}"), query(ctx), 1
    uses = USES[metric]
    m = RatioModel(ctx, {RESP: size}, max(size, 1), ("yes", "no", "idk") if metric == "answer_relevance" else ("yes", "no"))
    m.uses = uses
    return m, query(ctx, 1, max(size, 1)) if "ctx" in uses else query(ctx), 2 if "items" in uses else 1


KINDS = ["cut", "no brace", "twice", "list", "key", "extra", "container", "length", "element", "fields", "verdict type", "verdict text"]


@task(
    "C21",
    lambda tier: [dict(metric=m, kind=k, size=z) for m in TYPES if m != "summary_coherence" for k in KINDS for z in ((0, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4))],
    bounds="every metric with 0, 2 or 3 items per list (0-4 thorough); one reply of the dialogue deviates in one of 12 ways (truncation, braces, keys, extra keys, containers, lengths, elements, fields, verdict types, arbitrary verdict strings)",
)
def deviation(ctx, metric, kind, size):
    ref, q, _ = base_model(ctx, metric, size)
    ref.plain = kind in ("cut", "no brace", "twice", "list")
    want = good(ctx, call(evaluator(ctx, ref), metric, q), metric)
    if not ref.calls:
        return
    at = ctx.choose("at", list(range(ref.calls)))
    model = Mutant(ctx, ref, at, kind)
    m = call(evaluator(ctx, model), metric, q)
    if model.malformed:
        is_error(ctx, m, f"a malformed reply ({kind})")
        return
    v = good(ctx, m, metric)
    if not model.texts and not (kind == "length" and metric == "answer_correctness"):
        ctx.check(approx(v, want), "a well-formed reply is misread")


@task(
    "C21",
    [dict(metric=m) for m in TYPES],
    bounds="replies with 5000-digit numbers and 100000 nested lists (concrete texts)",
)
def extreme(ctx, metric):
    big = "9" * 5000
    docs = [
        f"Score {big}",
        '{"verdicts": %s, "claims": %s, "opinions": %s, "statements": %s}' % (big, big, big, big),
        '{"verdicts": ' + "[" * 100000 + "]" * 100000 + "}",
    ]
    k = ctx.choose("doc", [0, 1, 2])
    model = Fixed(ctx, docs[k])
    is_error(ctx, call(evaluator(ctx, model), metric, query(ctx, 1, 1)), "an extreme reply")


# ------------------------------------------------------------ retries


class Boom(Exception):
    pass


class Faulty(Model):
    def __init__(self, ctx, base, n):
        self.ctx, self.base, self.n, self.calls, self.log = ctx, base, n, 0, []

    def __call__(self, messages):
        doc = self.base(messages)
        k = self.calls
        self.calls += 1
        self.ctx.check(k < self.n, "more calls than the retries allow")
        if self.ctx.decide(self.ctx.bool(f"bad{k}")):
            self.log.append(False)
            return "no score and no JSON"
        if self.ctx.decide(self.ctx.bool(f"boom{k}")):
            self.log.append(None)
            raise Boom(f"call {k}")
        self.log.append(True)
        return doc


@task(
    "C22",
    lambda tier: [dict(metric=m) for m in TYPES],
    bounds="every metric, 0-2 retries (symbolic), every pattern of valid, malformed and failing replies",
)
def retries(ctx, metric):
    base, q, n = base_model(ctx, metric)
    want = good(ctx, call(evaluator(ctx, base), metric, q), metric)
    r = ctx.int("retries", 0, 2)
    model = Faulty(ctx, base, n * 3)
    got = boom = None
    try:
        got = call(evaluator(ctx, model, r), metric, q)
    except Boom as ex:
        boom = ex
    judge(ctx, model.log, n, r, got, boom, metric, want)


def judge(ctx, log, n, r, got, boom, metric, want):
    attempts, pos, outcome = 0, 0, "error"
    while pos < len(log):
        attempts += 1
        run = log[pos : pos + n]
        bad = next((i for i, x in enumerate(run) if x is not True), None)
        if bad is None:
            ctx.check(len(run) == n, "an attempt was abandoned")
            pos += n
            outcome = "value"
        else:
            pos += bad + 1
            outcome = "boom" if run[bad] is None else "error"
        if outcome != "error":
            break
    ctx.check(pos == len(log), "the model was asked again after the outcome was settled")
    ctx.check(attempts <= r + 1, "more attempts than 1 + retries")
    if outcome == "boom":
        ctx.check(boom is not None and str(boom) == f"call {len(log) - 1}", "a client failure was swallowed")
        return
    ctx.check(boom is None, "a stale failure was raised")
    if outcome == "value":
        ctx.check(approx(good(ctx, got, metric, r), want), "the value is not that of the first valid attempt")
    else:
        ctx.check(eq(attempts, r + 1), "gave up before the retries were used")
        is_error(ctx, got, "a dialogue of malformed replies", r)


@task(
    "C22",
    lambda tier: [dict(most=Q(tier, 3, 5))],
    bounds="0-3 retries (5 thorough); attempt k answers with an arbitrary verdict string, so validity and value of every attempt are symbolic",
)
def first_valid(ctx, most):
    r = ctx.int("retries", 0, most)
    vs = [ctx.str(f"v{k}") for k in range(most + 1)]

    class M(Model):
        def __call__(self, messages):
            k = self.calls
            self.calls += 1
            ctx.check(k <= most, "more calls than the retries allow")
            return ctx.json({"verdicts": [{"verdict": vs[k], "analysis": ""}]})

    model = M(ctx, {})
    m = call(evaluator(ctx, model, r), "context_relevance", query(ctx, 0, 1))
    for k in range(most + 1):
        if not ctx.decide(r >= k):
            break
        if ctx.decide(or_(vs[k] == "yes", vs[k] == "no")):
            ctx.check(model.calls == k + 1, "attempts do not stop at the first valid reply")
            ctx.check(approx(good(ctx, m, "context_relevance", r), ite(vs[k] == "yes", 1.0, 0.0)), "not the first valid reply's value")
            return
    ctx.check(eq(model.calls, r + 1), "number of attempts")
    is_error(ctx, m, "a dialogue of malformed replies", r)


class Script(Model):
    """call k is malformed, fails or answers with a verdict (score) of its own."""

    def __init__(self, ctx, most):
        self.ctx, self.most, self.log = ctx, most, []

    def __call__(self, messages):
        ctx, k = self.ctx, len(self.log)
        ctx.check(k < self.most, "more calls than the retries allow")
        if ctx.decide(ctx.bool(f"bad{k}")):
            self.log.append(None)
            return "no score and no JSON"
        if ctx.decide(ctx.bool(f"boom{k}")):
            self.log.append("boom")
            raise Boom(f"call {k}")
        text = messages[-1]["content"]
        if "coheren" in text.lower():
            v = ctx.int(f"score{k}", 1, 5)
            for s in range(1, 6):
                if ctx.decide(v == s):
                    self.log.append(s)
                    return f"{s}"
        yes = ctx.bool(f"yes{k}")
        self.log.append(ite(yes, 1.0, 0.0))
        return ctx.json({"verdicts": [{"analysis": "", "verdict": "yes" if ctx.decide(yes) else "no"}]})


@task(
    "C22",
    lambda tier: [
        dict(metrics=["context_relevance", "context_relevance"], most=2),
        dict(metrics=["context_relevance", "hallucination"], most=1),
        dict(metrics=["summary_coherence", "context_relevance"], most=1),
        dict(metrics=["context_relevance", "context_relevance", "context_relevance"], most=1, apart=True),
    ]
    + Q(tier, [], [dict(metrics=["hallucination", "context_relevance", "context_relevance"], most=2), dict(metrics=["context_relevance"] * 3, most=2, apart=True)]),
    bounds="2-3 queries one after the other, of one evaluator or alternating between two that share the client, 0-2 retries; every call malformed, failing or valid with a verdict of its own",
)
def sequence(ctx, metrics, most, apart=False):
    r = ctx.int("retries", 0, most)
    model = Script(ctx, (most + 1) * len(metrics))
    evs = [evaluator(ctx, model, r), evaluator(ctx, model, r)]
    given = []
    for k, metric in enumerate(metrics):
        start, got, boom = len(model.log), None, None
        try:
            got = call(evs[k % 2 if apart else 0], metric, query(ctx, 1, 1))
        except Boom as ex:
            boom = ex
        log = model.log[start:]
        ctx.check(len(log) >= 1, "a query that asked nothing")
        ctx.check(len(log) <= r + 1, "more attempts than 1 + retries")
        ctx.check(all(x is None for x in log[:-1]), "the model was asked again after the outcome was settled")
        last = log[-1]
        if isinstance(last, str):
            ctx.check(boom is not None and str(boom) == f"call {len(model.log) - 1}", "a client failure was swallowed")
            continue
        ctx.check(boom is None, "a stale failure was raised")
        given.append((got, metric, last, len(log)))
    for got, metric, last, n in given:
        if last is None:
            ctx.check(eq(n, r + 1), "gave up before the retries were used")
            is_error(ctx, got, "a dialogue of malformed replies", r)
        else:
            ctx.check(approx(good(ctx, got, metric, r), last), "the value is not that of the query's own first valid attempt")
