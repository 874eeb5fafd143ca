"""The wrappers around the OpenAI and Mistral clients, with the vendor libraries replaced by scripted ones."""
import sys
import types

from symx.logic import and_, or_

from . import task
from .common import eq

NS = types.SimpleNamespace


class Vendor:
    """stands in for the modules openai and mistralai: records requests and
    constructor arguments, answers with the scripted replies."""

    def __init__(self):
        self.requests, self.built, self.script = [], [], []

    def create(self, **kw):
        self.requests.append(kw)
        r = self.script.pop(0)
        if isinstance(r, Exception):
            raise r
        return r

    def __enter__(self):
        me = self

        class OpenAI:
            def __init__(self, **kw):
                me.built.append(kw)
                self.chat = NS(completions=NS(create=me.create))

        class Mistral:
            def __init__(self, **kw):
                me.built.append(kw)
                self.chat = NS(complete=me.create)

        self.saved = {n: sys.modules.get(n) for n in ("openai", "mistralai")}
        for n, c in (("openai", OpenAI), ("mistralai", Mistral)):
            m = types.ModuleType(n)
            setattr(m, c.__name__, c)
            sys.modules[n] = m
        return self

    def __exit__(self, *a):
        for n, m in self.saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


# replies as models write them: fences, several objects, blank edges, odd characters, great length
TEXTS = [
    "\n```json\n{\"a\": [\"x\"]}\n```\n",
    "<think>\nno {\"a\": 1}\n</think> {\"a\": 2} \t",
    "Sure! \u00dcber \u2026 \x00\ufeff\r\n\r\n{'a': \"b\\n\"}" + "x y\n" * 3000 + "{}",
]


def attempt(f):
    try:
        return "ok", f()
    except Exception as ex:  # noqa: BLE001
        return type(ex).__name__, None


def same_messages(got, want):
    if not isinstance(got, list) or len(got) != len(want):
        return False
    return and_(*[and_(isinstance(g, dict) and set(g) == set(w), *[g[k] == w[k] for k in w if k in g]) for g, w in zip(got, want)])


def reply(ctx, i, kind, reason, content, usage=None, form="content"):
    if form == "reply":
        return None
    if form == "choices":
        return NS(choices=None)
    if form == "message":
        return NS(choices=[NS(message=None, finish_reason=reason)])
    choice = NS(message=NS(content=content), finish_reason=reason)
    # some servers send alternatives: the first one is the reply
    more = [NS(message=NS(content=ctx.str(f"alt{i}")), finish_reason=ctx.str(f"altr{i}"))] if form == "several" else []
    return NS(choices=[choice] + more, usage=usage) if kind == "openai" else NS(choices=[choice] + more)


@task(
    "C27",
    lambda tier: [dict(kind=k, n=n) for k in ("openai", "mistral") for n in ([1, 2] if tier != "thorough" else [1, 2, 3])],
    bounds="sequences of 1-2 (3 thorough) calls per wrapper; reply texts, finish reasons and message texts are symbolic strings of any length, or one of 3 long texts with fences, tags and odd characters, token counts symbolic integers; missing usage, missing reply text (Mistral: also a missing message, choice list or reply), failing requests; a second alternative with symbolic text and finish reason; one or two messages per call",
    assumptions=["the vendor libraries openai and mistralai are replaced by scripted stand-ins with the documented response fields"],
)
def replies(ctx, kind, n):
    M = ctx.mod("text_generation.llm.integrations")
    with Vendor() as v:
        seed = ctx.choose("seed", [None, 7])
        w = M.OpenAIWrapper(model_name="m1", api_key="k1", seed=seed) if kind == "openai" else M.MistralWrapper(model_name="m1", api_key="k1")
        ctx.check(v.built == [{"api_key": "k1"}], "client built with the given key")
        ctx.check(w.model_name == "m1", "model name kept")
        total_p, total_c = 0, 0
        for i in range(n):
            nm = ctx.choose(f"nm{i}", [1, 2])
            msgs = [{"role": r, "content": ctx.str(f"c{i}{r}")} for r in ["system", "user"][:nm]]
            keep = [dict(m) for m in msgs]
            what = ctx.choose(f"what{i}", ["text", "none", "fails"])
            form = ctx.choose(f"form{i}", ["content", "message", "choices", "reply"]) if what == "none" and kind == "mistral" else ctx.choose(f"form{i}", ["content", "several"])
            text, reason = ctx.str(f"t{i}"), ctx.str(f"r{i}")
            if n == 1 and what == "text":
                k = ctx.choose(f"k{i}", [None, 0, 1, 2])
                text = text if k is None else TEXTS[k]
                msgs[-1]["content"] = keep[-1]["content"] = msgs[-1]["content"] if k is None else TEXTS[k - 1]
            usage = None
            if kind == "openai" and what != "fails" and ctx.flag(f"u{i}"):
                a, b = ctx.int(f"p{i}", 0, 10**9), ctx.int(f"q{i}", 0, 10**9)
                usage = NS(prompt_tokens=a, completion_tokens=b, total_tokens=a + b)
                total_p, total_c = total_p + a, total_c + b
            v.script = [RuntimeError("down") if what == "fails" else reply(ctx, i, kind, reason, text if what == "text" else None, usage, form)]
            before = len(v.requests)
            st, got = attempt(lambda: w(msgs))
            ctx.check(len(v.requests) == before + 1, "one request per call")
            req = dict(v.requests[-1])
            ctx.check(same_messages(req.pop("messages"), keep), "messages sent as given")
            ctx.check(same_messages(msgs, keep), "messages left as they were")
            ctx.check(req.pop("model") == "m1", "configured model")
            if kind == "openai":
                ctx.check(req.pop("seed", None) == seed, "configured seed")
            ctx.check(all(x is None for x in req.values()), "nothing else is asked for")
            bad = or_(reason == "length", kind == "openai" and reason == "content_filter")
            if what == "fails":
                ctx.check(st == "RuntimeError", "a failing request is not swallowed")
            elif what == "none" and kind == "mistral":
                ctx.check(st == "ValueError" or (st == "ok" and got == ""), "a missing text is an empty reply")
            elif ctx.decide(bad):
                ctx.check(st == "ValueError", "an unusable reply is rejected")
            else:
                ctx.check(st == "ok", "a complete reply is accepted")
                ctx.check(got == (text if what == "text" else ""), "the text of the reply")
            if kind == "openai":
                ctx.check(eq(w.total_prompt_tokens, total_p), "prompt tokens add up")
                ctx.check(eq(w.total_completion_tokens, total_c), "completion tokens add up")


@task(
    "C27",
    lambda tier: [dict(kind=k) for k in ("openai", "mistral")],
    bounds="message lists of length 0-2 and other values, each message with a text, a number, None or no role and content, or not a dictionary at all",
)
def messages(ctx, kind):
    M = ctx.mod("text_generation.llm.integrations")
    n = ctx.choose("n", [0, 1, 2, "tuple", "dict"])
    items, ok = [], isinstance(n, int)
    for i in range(n if ok else 1):
        m, form = {}, ctx.choose(f"f{i}", ["dict", "str", "none"])
        if form == "dict":
            for k in ("role", "content"):
                x = ctx.choose(f"{k}{i}", ["text", "int", "none", "absent"])
                if x != "absent":
                    m[k] = {"text": ctx.str(f"x{k}{i}"), "int": 3, "none": None}[x]
                ok = ok and x == "text"
        else:
            m, ok = ("hello" if form == "str" else None), False
        items.append(m)
    arg = {"tuple": tuple(items), "dict": {"role": "user", "content": "x"}}.get(n, items) if isinstance(n, str) else items
    with Vendor() as v:
        w = M.OpenAIWrapper(model_name="m", api_key="k") if kind == "openai" else M.MistralWrapper(model_name="m", api_key="k")
        v.script = [reply(ctx, 0, kind, "stop", "fine")]
        st, got = attempt(lambda: w(arg))
        if ok:
            ctx.check(st == "ok" and got == "fine", "valid messages are accepted")
            ctx.check(same_messages(v.requests[0]["messages"], items), "messages sent as given")
        else:
            ctx.check(st in ("TypeError", "ValueError"), "malformed messages are rejected")
            ctx.check(v.requests == [], "nothing is sent for malformed messages")


@task(
    "C27",
    lambda tier: [dict(kind=k) for k in ("openai", "mistral")],
    bounds="every combination of given and omitted key, seed and retries (symbolic, 0-3); a reply that is not text; two wrappers side by side",
)
def construction(ctx, kind):
    T = ctx.mod("text_generation")
    key, prompt = ctx.choose("key", [None, "k9"]), ctx.choose("prompt", ["p1", "p2"])
    retries = ctx.int("retries", 0, 3)
    seed = ctx.choose("seed", [None, 0, 5]) if kind == "openai" else None
    with Vendor() as v:
        kw = dict(model_name="mm", api_key=key, retries=retries, default_system_prompt=prompt)
        st, ev = attempt(lambda: T.Evaluator.openai(seed=seed, **kw) if kind == "openai" else T.Evaluator.mistral(**kw))
        if seed is not None and ctx.decide(retries != 0):
            ctx.check(st == "ValueError", "a seed excludes retries")
            return
        ctx.check(st == "ok", "accepted")
        ctx.check(len(v.built) == 1, "one client")
        if key is not None:
            ctx.check(v.built[0] == {"api_key": key}, "given key")
        else:
            ctx.check(v.built[0].get("api_key") is None, "no key made up")
        ctx.check(ev.client.model_name == "mm" and ev.default_system_prompt == prompt, "settings kept")
        ctx.check(eq(ev.retries, retries), "retries kept")
        if kind == "openai":
            ctx.check(ev.client.seed == seed, "seed kept")
            ctx.check(ev.client.total_prompt_tokens == 0 and ev.client.total_completion_tokens == 0, "nothing counted yet")
        msg = [{"role": "user", "content": "x"}]
        if kind == "mistral":
            v.script = [reply(ctx, 0, kind, "stop", ["chunk"])]
            st, got = attempt(lambda: ev.client(msg))
            ctx.check(st == "TypeError", "a reply that is not text is rejected")
            return
        other = T.Evaluator.openai(model_name="oo", api_key="kk")
        v.script = [reply(ctx, 0, kind, "stop", "a", NS(prompt_tokens=2, completion_tokens=3, total_tokens=5))]
        ctx.check(ev.client(msg) == "a" and v.requests[-1]["model"] == "mm", "own model")
        ctx.check(other.client.total_prompt_tokens == 0 and ev.client.total_prompt_tokens == 2, "totals are kept per client")
