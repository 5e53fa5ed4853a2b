"""Lookup in back-off and interpolated models."""
import framework, vk, models
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "back-off values are dyadic, so that sums are exact and compared for equality; interpolated values are compared within 2e-6"]}
REPS = ["tree", "hash", "hash16", "bin"]


def load(ctx, d, rep, text):
    vk.put(d + "/m.arpa", text)
    if rep == "bin":
        rc, out, err = vk.run([ctx.bin("arpa2bin"), d + "/m.arpa", d + "/m.bin"])
        if rc != 0:
            raise vk.Obs("arpa2bin failed: rc=%s %s" % (rc, err[-200:].decode("utf-8", "replace")))
        return "bin %s/m.bin" % d
    return "%s %s/m.arpa" % (rep, d)


def replay(ctx, inp):
    """A generated model; all its queries."""
    with vk.Scratch() as d:
        U = models.UNIT
        text = models.arpa_text([[g, v / U] for g, v in inp["p"]], [[g, v / U] for g, v in inp["w"]])
        cmds = [load(ctx, d, inp["rep"], text)]
        cmds += ["%s %s" % (inp["api"], " ".join(g)) for g in inp["q"]]
        out = []
        for l in models.lmq(ctx, cmds)[1:]:
            a, b = l.split()
            out.append([models.units(a), int(b)])
        return out


REPLAY = Kind("lookup-replay", None, replay)


def observe(ctx, inp):
    with vk.Scratch() as d:
        U = models.UNIT
        text = models.arpa_text([[g, v / U] for g, v in inp["p"]], [[g, v / U] for g, v in inp["w"]], inp["inter"])
        cmds = [load(ctx, d, inp["rep"], text)]
        cmds += ["%s %s" % (a, " ".join(g)) for a, g in inp["q"]]
        out = []
        for (a, g), l in zip(inp["q"], models.lmq(ctx, cmds)[1:]):
            x, o = l.split()
            v = models.q26(float(x)) if inp["inter"] else models.units(x)
            if isinstance(v, str):
                return "the answer to %s is %s, no sum of the model's values" % (g, v)
            out.append([g, v, int(o)])
        if inp["inter"]:
            p = [[g, models.q26(v / U)] for g, v in inp["p"]]
            w = [[g, models.q26(v / U)] for g, v in inp["w"]]
        else:
            p, w = inp["p"], inp["w"]
        return {"p": p, "w": w, "inter": inp["inter"], "answers": out,
                "unlisted": ((-99 if inp["rep"] in ("tree", "bin") else -60) * U) if not inp["inter"] else 0,
                "impossible": (-60 * U if inp["rep"].startswith("hash") else -2000000000) if not inp["inter"] else -1}


LOOKUP = Kind("lookup", "Trace_Lookup", observe)


def kinds(ctx):
    ctx.kind(REPLAY)
    ctx.kind(LOOKUP)


def rand(rng):
    inter = rng.random() < 0.4
    p, w = models.rand_model(rng, inter=inter)
    words = [g[0] for g, _ in p if len(g) == 1] + ["nowhere"]
    hist, q = [], []
    rep = rng.choice(REPS if not inter else REPS[:3])
    apis = {"tree": "qvu", "bin": "qvu", "hash": "qv", "hash16": "qvu"}[rep]
    for _ in range(rng.choice([20, 40, 80])):
        r = rng.random()
        if r < 0.5:       # a running history, as in decoding
            hist = (hist + [rng.choice(words)])[-rng.randint(1, 6):]
            g = hist
        elif r < 0.85:    # a stored n-gram, perhaps extended or with a changed head
            g = list(rng.choice(p)[0])
            if rng.random() < 0.5:
                g = [rng.choice(words)] + g
            if rng.random() < 0.4:
                g = g + [rng.choice(words)]
        else:
            g = [rng.choice(words) for _ in range(rng.randint(1, 7))]
        q.append([rng.choice(apis), list(g)])
    return {"p": p, "w": w, "inter": inter, "rep": rep, "q": q}


def run(ctx):
    ctx.model("MC_Lookup")
    cases = ctx.generate("MC_Lookup", "Gen_Lookup")
    items = []
    for i, c in enumerate(cases):
        rep = REPS[i % 4] if ctx.quick else None
        for r in ([rep] if rep else REPS):
            ans = list(c["answers"])
            ctx.rng.shuffle(ans)
            items.append(({"p": c["p"], "w": c["w"], "rep": r, "api": ctx.rng.choice("qv"), "q": [a[0] for a in ans]},
                          [[a[1], a[2]] for a in ans]))
    ctx.expect(REPLAY, items, "every small model, every query")
    ctx.validate(LOOKUP, [rand(ctx.rng) for _ in range(ctx.n(600, 8000))], "random models and histories")
