"""varigram_kn -V: the model is scaled down to the size asked for."""
import re
import framework, train, vk
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "the first round of pruning takes the limit of -D, as one round with -E set to it",
    "rounds are followed through the tables written and the sizes reported"]}


def rounds(err, grown):
    """What the program reports: sizes, and the limits that led to them (1e-4 units)."""
    first = re.search(r"Currently (\d+) ngrams\. First prune with E=D=([\d.]+)", err)
    last = re.search(r"Finally, (\d+) grams", err)
    prev = [int(b) for a, b in re.findall(r"pruned the model from (-?\d+) to (-?\d+) ngrams", err)]
    lims = [float(x) for x in re.findall(r"With limits I increase E with .* to ([\d.]+)", err)]
    if not first or not last or len(prev) != len(lims):
        return None
    u = 1e4
    sizes = [int(first.group(1))] + prev + [int(last.group(1))]
    limits = [0.0, float(first.group(2))] + lims
    if max(limits) * u > 1e7:
        return None
    return [{"size": s, "limit": int(round(l * u))} for s, l in zip(sizes, limits)]


def without(opts, *names):
    out, i = [], 0
    while i < len(opts):
        if opts[i] in names:
            i += 2
        else:
            out.append(opts[i])
            i += 1
    return out


def observe(ctx, inp):
    o = without(inp["opts"], "-E", "-V")
    base = dict(inp, opts=o)
    g = train.varigram(ctx, base, train.HUGE)
    once = train.varigram(ctx, base, ["-E", o[o.index("-D") + 1]])
    # the target: somewhere between 0 and a little above the grown size
    n = len(g["counts"])
    v = max(1, int(round(n * inp["part"])))
    f = train.varigram(ctx, base, ["-V", str(v)], cap=True)
    for x in (once, f):
        if x["words"] != g["words"]:
            return "the vocabulary depends on pruning"
    r = rounds(f["err"], g)
    tab = lambda x: {"counts": x["counts"], "bos": x["bos"]}
    return {"grown": tab(g), "once": tab(once), "final": tab(f), "target": v, "clear": "-C" in o,
            "absolute": "-A" in o, "three": "-3" in o, "told": r is not None, "rounds": r or []}


RUNS = Kind("target", "Trace_SizeTarget", observe)


def kinds(ctx):
    ctx.kind(RUNS)


def rand(rng):
    while True:
        inp = train.rand_varigram(rng)
        o = inp["opts"]
        if "-C" in o and "<s>" not in train.flat(inp["text"]):
            continue
        d = o.index("-D")
        o[d + 1] = rng.choice(["0.00001", "0.0001", "0.001", "0.001", "0.005", "0.01", "0.02", "0.05", "0.3"])
        if rng.random() < 0.6:
            # more text, so that there is something to scale down
            nw = rng.choice([3, 4, 6, 10])
            inp["text"] = vk.rand_text(rng, rng.choice([25, 40, 60, 90]), nw, marks=True,
                                       names=["w%d" % i for i in range(nw)], unk=0, zipf=rng.choice([0.6, 1.0, 1.6]))
            inp.pop("vocab", None)
        inp.pop("prune", None)
        inp["part"] = rng.choice([0.01, 0.2, 0.4, 0.5, 0.6, 0.7, 0.8, 0.85, 0.9, 0.95, 0.96, 0.97, 0.98, 0.99, 1, 1.01, 1.2])
        return inp


def run(ctx):
    ctx.model("MC_SizeTarget", "MC_SizeTarget")
    ctx.refute("MC_SizeTarget", "MC_SizeTarget_endless")
    if not ctx.quick:
        ctx.model("MC_SizeTarget", "MC_SizeTarget_deep", timeout=1200)
    ctx.validate(RUNS, [rand(ctx.rng) for _ in range(ctx.n(250, 4000))], "random models and targets")
