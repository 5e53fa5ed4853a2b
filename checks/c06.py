"""Probabilities in the written model."""
import framework, vk, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "probabilities are compared within some 3e-4 of their decimal logarithm (26-bit fixed point in the specification, %g in the file)"]}
ARPA = Kind("arpa", "Trace_KNCounts", train.trace_counts)
GROW = Kind("arpa-grow", "Trace_Varigram", train.trace_varigram)


def kinds(ctx):
    ctx.kind(ARPA)
    ctx.kind(GROW)


def run(ctx):
    rng = ctx.rng

    def mk():
        inp = train.rand_prune(rng) if rng.random() < 0.4 else train.rand_train(rng)
        inp["arpa"] = rng.choice(["arpa", "arpa", "narpa"])
        return inp
    N = ctx.n(240, 3000)
    ctx.validate(ARPA, [mk() for _ in range(N)], "counts2kn -a")

    def grow():
        inp = train.rand_varigram(rng)
        inp["arpa"] = rng.choice(["arpa", "arpa", "narpa"])
        if inp["arpa"] == "narpa" and rng.random() < 0.4:
            inp["opts"].append("-Z")
        if rng.random() < 0.3:
            inp["opts"] += ["-F", rng.choice(["0", "0.1", "0.5", "0.9", "1"])]
        return inp
    ctx.validate(GROW, [grow() for _ in range(N // 2)], "varigram_kn -a, -x")
