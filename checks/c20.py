"""Look-ahead lists."""
import framework, vk, models
from framework import Kind
from c07 import load

META = {"level": "model_checking", "assumptions": [
    "scores of single models are dyadic and compared for equality; those of mixtures within 3e-6"]}


def texts(ms):
    U = models.UNIT
    return [models.arpa_text([[g, v / U] for g, v in p], [[g, v / U] for g, v in w]) for p, w in ms]


def observe(ctx, inp):
    U = models.UNIT
    with vk.Scratch() as d:
        ts = texts(inp["models"])
        if inp["weights"]:
            cmd = "inter"
            for i, t in enumerate(ts):
                vk.put(d + "/m%d.arpa" % i, t)
                cmd += " %s/m%d.arpa %s" % (d, i, models.num(inp["weights"][i] / 64))
        else:
            cmd = load(ctx, d, inp["rep"], ts[0])
        cmds = [cmd] + ["%s %s" % ("b" if len(h) == 1 else "t", " ".join(h + ws)) for h, ws in inp["lists"]]
        out = models.lmq(ctx, cmds)
        lists = []
        for (h, ws), l in zip(inp["lists"], out[1:]):
            if inp["weights"]:
                vals = [models.q26(float(x)) for x in l.split()]
            else:
                vals = [models.units(x) for x in l.split()]
                for v in vals:
                    if isinstance(v, str):
                        return "a score after %s is %s, no sum of the model's values" % (h, v)
            lists.append([h, ws, vals])
        if inp["weights"]:
            f = lambda x: [[g, models.q26(v / U)] for g, v in x]
            return {"models": [{"p": f(p), "w": f(w)} for p, w in inp["models"]], "mixed": True, "lists": lists,
                    "weights": [x << 20 for x in inp["weights"]], "unlisted": 0}
        return {"models": [{"p": p, "w": w} for p, w in inp["models"]], "mixed": False, "lists": lists, "weights": [],
                "unlisted": -99 * U}


LISTS = Kind("lists", "Trace_Lists", observe)


def kinds(ctx):
    ctx.kind(LISTS)


def rand(rng):
    mixed = rng.random() < 0.3
    ms = [models.rand_model(rng, order=rng.choice([2, 3, 3, 4]), positive=not mixed) for _ in range(rng.choice([1, 2, 3]) if mixed else 1)]
    words = sorted({g[0] for p, _ in ms for g, _ in p if len(g) == 1} | {"<UNK>"})
    lists = []
    for _ in range(rng.choice([5, 12, 25])):
        p = rng.choice(ms)[0]
        h = list(rng.choice(p)[0])[:1 if mixed else 2]
        if rng.random() < 0.4:
            h = [rng.choice(words) for _ in range(rng.randint(1, 2))]
        if mixed:
            h = h[:1]
        ws = list(words)
        if rng.random() < 0.5:
            rng.shuffle(ws)
        if rng.random() < 0.3:
            ws = [rng.choice(words) for _ in range(rng.randint(1, 2 * len(words)))]
        lists.append([h, ws])
    wts = []
    if mixed:
        cut = sorted(rng.randint(0, 64) for _ in ms[1:])
        wts = [b - a for a, b in zip([0] + cut, cut + [64])]
    return {"models": ms, "weights": wts, "rep": rng.choice(["tree", "bin"]), "lists": lists}


def run(ctx):
    ctx.model("MC_Lookup")
    items = []
    for c in ctx.generate("MC_Lookup", "Gen_Lookup"):
        ws = ["a", "b", "<UNK>"]
        items.append({"models": [[c["p"], c["w"]]], "weights": [], "rep": "tree" if len(items) % 2 else "bin",
                      "lists": [[[a], ws] for a in ws] + [[[a, b], ws] for a in ws for b in ws]})
    ctx.validate(LISTS, items, "every small model, all lists")
    ctx.validate(LISTS, [rand(ctx.rng) for _ in range(ctx.n(700, 8000))], "random models")
