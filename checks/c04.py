"""Growing."""
import framework, vk, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "count tables are observed through the files varigram_kn -W and -U write; the grown state is observed in a run whose pruning is turned off by a huge size target",
    "which contexts are worth growing (a description length) is not decided, only what growing does"]}
GROW = Kind("grow", "Trace_Varigram", train.trace_varigram)


def kinds(ctx):
    ctx.kind(GROW)


def run(ctx):
    ctx.model("MC_KNCounts", None if ctx.quick else "MC_KNCounts_deep", timeout=3000)
    N = ctx.n(300, 3000)
    ctx.validate(GROW, [train.rand_varigram(ctx.rng) for _ in range(N)], "random growing runs")
