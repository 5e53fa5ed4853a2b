"""The probabilities of a written model sum to one."""
import random
import framework, vk, train, models
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "sums are compared with one within 2e-4 (back-off form, %g) or 1.5e-3 (interpolated form, %.4f)"]}


def observe(ctx, inp):
    f = train.FORMS[inp["arpa"]]
    if inp["tool"] == "counts2kn":
        data = train.counts2kn(ctx, inp, want_counts=False, want_model=f)["model"]
    else:
        data = train.varigram(ctx, inp, model=f)["model"]
    a = vk.read_arpa(data)
    if a.interpolated != (inp["arpa"] == "narpa"):
        return "the file's form is not the one asked for"
    v = models.lin_view(a)
    v["tol"] = 100000 if a.interpolated else 13000
    return v


SUMS = Kind("sums", "Trace_Sums", observe)


def kinds(ctx):
    ctx.kind(SUMS)


def rand(rng):
    r = rng.random()
    if r < 0.6:
        inp = train.rand_prune(rng) if rng.random() < 0.5 else train.rand_train(rng)
        inp["tool"] = "counts2kn"
    else:
        inp = train.rand_varigram(rng)
        inp["tool"] = "varigram"
        if rng.random() < 0.3:
            inp["opts"] += ["-F", rng.choice(["0", "0.1", "0.5", "0.9", "1"])]
    if rng.random() < 0.2 and inp.get("vocab") is None:
        train.rand_select(rng, inp)
    if rng.random() < 0.4:
        words = sorted(set(train.flat(inp["text"])))
        dev = vk.rand_text(rng, rng.choice([2, 10, 40]), len(words), marks=False, names=words)
        if "-C" in inp["opts"]:
            dev = [["<s>"] + s for s in dev]
        inp["dev"] = dev
    inp["arpa"] = rng.choice(["arpa", "narpa"])
    return inp


def run(ctx):
    ctx.model("MC_Sums", "MC_Sums" if ctx.quick else "MC_Sums_deep")
    ctx.validate(SUMS, [rand(ctx.rng) for _ in range(ctx.n(1200, 12000))], "sums of written models")

    def big():
        inp = rand(ctx.rng)
        if inp.get("vocab") is None and "-C" not in inp["opts"] and "dev" not in inp:
            inp["text"] = vk.rand_text(ctx.rng, ctx.rng.choice([150, 300, 600]), ctx.rng.choice([3, 10, 20]))
        return inp
    ctx.validate(SUMS, [big() for _ in range(ctx.n(120, 1500))], "sums of larger models")
