"""Count tables after training are what the text says, token by token."""
import framework, vk, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "count tables are observed through the files counts2kn -W and -U write",
    "texts of at most some 120 tokens, orders 1 to 5"]}


def replay_obs(ctx, inp):
    r = train.counts2kn(ctx, inp)
    return {"counts": sorted(r["counts"]), "bos": sorted(r["bos"])}


COUNTS = Kind("train", "Trace_KNCounts", train.trace_counts)
REPLAY = Kind("train-replay", None, replay_obs)


def kinds(ctx):
    ctx.kind(COUNTS)
    ctx.kind(REPLAY)


def to_item(rng, g):
    opts = (["-A"] if g["absolute"] else []) + (["-C"] if g["clear"] else [])
    three = rng.random() < 0.5
    if three:
        opts.append("-3")
    if rng.random() < 0.3 and ("<s>" in g["text"] or not g["clear"]):
        opts.append("-s")     # with -s the vocabulary is read first: -C needs a <s> in it
    if rng.random() < 0.3:
        opts.append("-L")
    opts += ["-H", str(rng.choice([1, 7, 1000]))]
    inp = {"text": [g["text"]], "n": g["n"], "opts": opts}
    bos = []
    for h, a, b, c, den, pr in g["bos"]:
        if den or not h:
            bos.append([h, [a, b, c, den, pr] if three else [a + b + c, den, pr]])
    return inp, {"counts": sorted([list(x) for x in g["counts"]]), "bos": sorted(bos)}


def run(ctx):
    ctx.model("MC_KNCounts", None if ctx.quick else "MC_KNCounts_deep", timeout=3000)
    gen = ctx.generate("MC_KNCounts", "Gen_KNCounts" if ctx.quick else "Gen_KNCounts_deep")
    ctx.expect(REPLAY, [to_item(ctx.rng, g) for g in gen], "exhaustive short texts")
    N = ctx.n(240, 2400)
    ctx.validate(COUNTS, [train.rand_train(ctx.rng, big=True) for _ in range(N)], "random texts")
