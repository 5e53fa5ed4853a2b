"""Pruning and cutoffs."""
import framework, vk, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "count tables are observed through the files counts2kn -W and -U write"]}

PRUNE = Kind("prune", "Trace_KNCounts", train.trace_counts)


DECIDE = Kind("prune-decide", "Trace_KNCounts", train.trace_counts)


def kinds(ctx):
    ctx.kind(DECIDE)
    ctx.kind(PRUNE)


def run(ctx):
    ctx.model("MC_KNCounts", None if ctx.quick else "MC_KNCounts_deep", timeout=3000)
    N = ctx.n(300, 3000)
    ctx.validate(PRUNE, [train.rand_prune(ctx.rng) for _ in range(N)], "random pruning runs")
    N = ctx.n(200, 2500)
    ctx.validate(DECIDE, [train.rand_decide(ctx.rng) for _ in range(N)], "small runs, choice decided")
