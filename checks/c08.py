"""Round trips of model files."""
import os
import framework, vk, models, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "values have at most four decimals and six digits, so that text and floats hold them exactly"]}

# how -> (needs, gives, operation of the specification)
HOW = {
    "arpa2bin": ("arpa", "bin", "tree>bin"),
    "bin2arpa": ("bin", "arpa", "tree>arpa"),
    "arpa2arpa": ("arpa", "arpa", "tree>arpa"),
    "arpa2arpa -t": ("arpa", "arpa", "tree>arpa"),
    "tree": ("arpa", "arpa", "tree>arpa"),
    "hash": ("arpa", "arpa", "hash>arpa"),
    "hash16": ("arpa", "arpa", "hash>arpa"),
    "tree bin": ("arpa", "bin", "tree>bin"),
    "bin bin": ("bin", "bin", "tree>bin"),
    "bin arpa": ("bin", "arpa", "tree>arpa"),
}


def convert(ctx, how, src, dst):
    w = how.split()
    if w[0] in ("arpa2bin", "bin2arpa", "arpa2arpa"):
        rc, out, err = vk.run([ctx.bin(w[0])] + w[1:] + [src, dst])
        if rc != 0:
            raise vk.Obs("%s failed: rc=%s %s" % (how, rc, err[-200:].decode("utf-8", "replace")))
        return
    to = "writebin" if w[1:] == ["bin"] else "write"
    models.lmq(ctx, ["%s %s" % (w[0], src), "%s %s" % (to, dst)])


def observe(ctx, inp):
    with vk.Scratch() as d:
        src = d + "/f0.arpa"
        vk.put(src, models.arpa_text([[g, "%.4f" % (v / 1e4)] for g, v in inp["p"]],
                                     [[g, "%.4f" % (v / 1e4)] for g, v in inp["w"]], inp["inter"], sep=inp["sep"]))
        start, _ = models.content(src, False, inp["sep"] if inp["sep"] == "\t" else None)
        steps = []
        for i, (how, suf) in enumerate(inp["chain"]):
            need, give, op = HOW[how]
            dst = "%s/f%d.%s%s" % (d, i + 1, give, suf)
            convert(ctx, how, src, dst)
            x, data = models.content(dst, give == "bin", "\t" if how.endswith("-t") else None)
            again = "same"
            if how == "arpa2arpa" or how == "bin bin":
                # canonical already: the same step once more changes not a byte
                convert(ctx, how, dst, d + "/again." + give)
                if open(d + "/again." + give, "rb").read() != data:
                    again = "a second conversion changes the file"
            if how == "bin2arpa":
                convert(ctx, "arpa2bin", dst, d + "/again.bin")
                convert(ctx, "bin2arpa", d + "/again.bin", d + "/again.arpa")
                if open(d + "/again.arpa", "rb").read() != data:
                    again = "arpa to bin to arpa changes the file"
            steps.append({"op": op, "how": how, "file": x, "again": again})
            src = dst
        return {"start": start, "steps": steps, "unlisted": -990000, "least": -600000}


CHAIN = Kind("chain", "Trace_Files", observe)


def trained(ctx, inp):
    """The binary and the ARPA output of one training run are the same model."""
    with vk.Scratch() as d:
        if inp["tool"] == "counts2kn":
            b = train.counts2kn(ctx, inp, want_counts=False, want_model=True)["model"]
            a = train.counts2kn(ctx, inp, want_counts=False, want_model="-a")["model"]
        else:
            b = train.varigram(ctx, inp, model=True)["model"]
            a = train.varigram(ctx, inp, model="-a")["model"]
        vk.put(d + "/m.bin", b)
        convert(ctx, "bin2arpa", d + "/m.bin", d + "/m.arpa")
        t = open(d + "/m.arpa", "rb").read()
        if t != a:
            return {"same": False, "why": "the binary model is not the ARPA model"}
        convert(ctx, "arpa2bin", d + "/m.arpa", d + "/m2.bin")
        convert(ctx, "bin2arpa", d + "/m2.bin", d + "/m2.arpa")
        if open(d + "/m2.arpa", "rb").read() != a:
            return {"same": False, "why": "arpa to bin to arpa changed the model"}
        return {"same": True, "why": ""}


TRAINED = Kind("trained", None, trained)


def kinds(ctx):
    ctx.kind(CHAIN)
    ctx.kind(TRAINED)


def rand(rng):
    inter = rng.random() < 0.25
    p, w = models.rand_model(rng, inter=inter, step=1000, start99=0)
    lim = lambda v: max(-999999, min(999999, v))
    p = [[g, 0 if rng.random() < 0.02 else -rng.randint(0, 99999 if rng.random() < 0.8 else 590000)] for g, v in p]
    for x in p:
        if x[0] == ["<s>"] and rng.random() < 0.6 and not any("<s>" in g[1:] for g, _ in p):
            x[1] = -990000
    ctxs = {tuple(g[:-1]) for g, _ in p}
    w = [[g, 0 if rng.random() < 0.1 else rng.randint(-60000, 8000)] for g, v in w if tuple(g) in ctxs]
    if [["<s>"], -990000] in p and ("<s>",) in ctxs:
        # an impossible word is kept for its weight
        w = [x for x in w if x[0] != ["<s>"]] + [[["<s>"], rng.choice([-1, -3010, -40000])]]
    form = "arpa"
    chain = []
    for _ in range(rng.randint(1, 5)):
        if inter:
            opts = ["hash", "hash16", "tree bin"] if form == "arpa" else ["bin bin"]
        else:
            opts = [h for h, v in HOW.items() if v[0] == form]
        h = rng.choice(opts)
        chain.append([h, rng.choice(["", "", "", ".gz", ".bz2"])])
        form = HOW[h][1]
        if inter and form == "bin" and rng.random() < 0.5:
            break
    return {"p": p, "w": w, "inter": inter, "chain": chain, "sep": rng.choice([" ", " ", "\t"])}


def run(ctx):
    ctx.validate(CHAIN, [rand(ctx.rng) for _ in range(ctx.n(500, 6000))], "chains of conversions")
    items = []
    for _ in range(ctx.n(120, 1500)):
        inp = train.rand_prune(ctx.rng) if ctx.rng.random() < 0.5 else train.rand_train(ctx.rng)
        inp["tool"] = "counts2kn"
        if ctx.rng.random() < 0.4:
            inp = train.rand_varigram(ctx.rng)
            inp["tool"] = "varigram"
        items.append((inp, {"same": True, "why": ""}))
    ctx.expect(TRAINED, items, "binary and ARPA output of training")
