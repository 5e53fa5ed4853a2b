"""Count files as input."""
import framework, vk, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "count tables are observed through the files counts2kn and varigram_kn -W and -U write",
    "texts of at most some 60 tokens, tables of at most 40 n-grams"]}
RECOUNT = Kind("recount", "Trace_KNCounts", train.trace_recount)
HIGHEST = Kind("highest", "Trace_KNCounts", train.trace_highest)


def kinds(ctx):
    ctx.kind(RECOUNT)
    ctx.kind(HIGHEST)


def run(ctx):
    ctx.model("MC_Resume", None if ctx.quick else "MC_Resume_deep", timeout=3000)
    N = ctx.n(160, 2000)
    ctx.validate(RECOUNT, [train.rand_recount(ctx.rng) for _ in range(N)], "counts2kn runs resumed from their count files")
    ctx.validate(RECOUNT, [train.rand_recount(ctx.rng, True) for _ in range(ctx.n(60, 600))], "varigram_kn runs resumed by counts2kn")
    ctx.validate(HIGHEST, [train.rand_highest(ctx.rng) for _ in range(ctx.n(100, 1200))], "runs from highest-order counts")
