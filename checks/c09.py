"""Interpolated models in back-off form."""
import math
import framework, vk, models, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "values are compared within the six digits the program prints (four where the input has four)"]}
q = models.q26


def lin(l, f="%.7f"):
    return [[g, q(float(f % v))] for g, v in l]


def view(a):
    v = models.lin_view(a)
    return {"p": v["p"], "w": v["w"]}


def observe(ctx, inp):
    with vk.Scratch() as d:
        f = lambda l: [[g, "%.7f" % v] for g, v in l]
        vk.put(d + "/i.arpa", models.arpa_text(f(inp["p"]), f(inp["w"]), True))
        cmds = {"arpa2arpa": [["arpa2arpa", "i.arpa", "o.arpa"]],
                "arpa2arpa -t": [["arpa2arpa", "-t", "i.arpa", "o.arpa"]],
                "bin": [["arpa2bin", "i.arpa", "i.bin"], ["bin2arpa", "i.bin", "o.arpa"]],
                "write": [], "convert": []}[inp["how"]]
        for c in cmds:
            rc, out, err = vk.run([ctx.bin(c[0])] + c[1:], cwd=d)
            if rc != 0:
                raise vk.Obs("%s failed: rc=%s %s" % (c[0], rc, err[-200:].decode("utf-8", "replace")))
        qs = ["q " + " ".join(x) for x in inp["queries"]]
        n = len(qs)
        ans = models.lmq(ctx, ["tree " + d + "/i.arpa"] + qs
                         + (["write " + d + "/o.arpa"] if inp["how"] == "write" else ["vocab"])
                         + ["convert"] + qs
                         + (["write " + d + "/o.arpa"] if inp["how"] == "convert" else ["vocab"]), cwd=d)
        data = open(d + "/o.arpa", "rb").read()
        a = vk.read_arpa(data.replace(b"\t", b" ") if inp["how"] == "arpa2arpa -t" else data)
        if a.interpolated:
            return "the result is not a back-off model"
        val = lambda s: q(float(s.split()[0]))
        p = lin(inp["p"])
        if ["<UNK>"] not in [g for g, _ in p]:
            p.append([["<UNK>"], 0])
        return {"from": {"p": p, "w": lin(inp["w"])}, "to": view(a), "normal": inp["normal"],
                "queries": [[x, val(ans[1 + i]), val(ans[3 + n + i])] for i, x in enumerate(inp["queries"])],
                "rel": 30000, "abs": 64, "sumtol": 13000}


def observe_trained(ctx, inp):
    """The interpolated output of a training run, converted, against the
    back-off output of the same run."""
    def out(form):
        if inp["tool"] == "counts2kn":
            return train.counts2kn(ctx, inp, want_counts=False, want_model=train.FORMS[form])["model"]
        return train.varigram(ctx, inp, model=train.FORMS[form])["model"]
    i, b = vk.read_arpa(out("narpa")), vk.read_arpa(out("arpa"))
    if not i.interpolated or b.interpolated:
        return "the file's form is not the one asked for"
    return {"from": view(i), "to": view(b), "normal": True, "queries": [], "rel": 3000, "abs": 128, "sumtol": 13000}


CONV = Kind("convert", "Trace_Convert", observe)
TRAINED = Kind("trained", "Trace_Convert", observe_trained)


def kinds(ctx):
    ctx.kind(CONV)
    ctx.kind(TRAINED)


def inter_model(rng):
    words = rng.sample(models.NAMES, rng.choice([1, 2, 4, 7, 12]))
    uni = words + (["<UNK>"] if rng.random() < 0.8 else [])
    if rng.random() < 0.6:
        uni += ["</s>"]
    rng.shuffle(uni)
    order = rng.choice([1, 2, 2, 3, 3, 4, 5])
    normal = rng.random() < 0.8
    k = [0.02 + rng.random() ** 3 for _ in uni]
    t = sum(k) * (1 if normal else 1.3)
    p = {(x,): v / t for x, v in zip(uni, k)}
    w = {}
    start = rng.random() < 0.5
    heads = [(x,) for x in uni] + ([("<s>",)] if start else [])
    if start:
        p[("<s>",)] = 1e-99
    for o in range(2, order + 1):
        nxt = []
        for h in heads:
            if rng.random() < 0.4:
                continue
            some = rng.sample(uni, rng.randint(1, len(uni)))
            k = [0.02 + rng.random() ** 3 for _ in some]
            left = rng.choice([0.05, 0.25, 0.5, 0.9, 0.999])
            if rng.random() < 0.05:
                left = 1e-9
            for x, v in zip(some, k):
                p[h + (x,)] = v / sum(k) * (1 - left)
                if rng.random() < 0.1:
                    p[h + (x,)] = 1e-60
                nxt.append(h + (x,))
            left = 1 - sum(p[h + (x,)] for x in some)
            w[h] = left if normal or rng.random() < 0.5 else left * (rng.random() + 0.001) / 1.001
        heads = nxt if len(nxt) <= 25 else rng.sample(nxt, 25)
    l10 = math.log10
    pl = [[list(g), l10(v)] for g, v in p.items()]
    rng.shuffle(pl)
    pl.sort(key=lambda x: len(x[0]))
    wl = [[list(h), l10(v)] for h, v in w.items()]
    qs = []
    for _ in range(20):
        g = list(rng.choice(pl)[0])
        for _ in range(rng.randint(0, 2)):
            g.insert(0, rng.choice(uni))
        if rng.random() < 0.5:
            g[-1] = rng.choice(uni)
        qs.append(g)
    return {"p": pl, "w": wl, "normal": normal, "queries": qs,
            "how": rng.choice(["arpa2arpa", "arpa2arpa", "arpa2arpa -t", "bin", "write", "convert"])}


def trained_inp(rng):
    r = rng.random()
    if r < 0.6:
        inp = train.rand_prune(rng) if rng.random() < 0.5 else train.rand_train(rng)
        inp["tool"] = "counts2kn"
    else:
        inp = train.rand_varigram(rng)
        inp["tool"] = "varigram"
    return inp


def run(ctx):
    ctx.model("MC_Convert", "MC_Convert" if ctx.quick else "MC_Convert_deep", timeout=3000)
    ctx.validate(CONV, [inter_model(ctx.rng) for _ in range(ctx.n(800, 8000))], "random interpolated models")
    ctx.validate(TRAINED, [trained_inp(ctx.rng) for _ in range(ctx.n(250, 3000))], "trained models in both forms")
