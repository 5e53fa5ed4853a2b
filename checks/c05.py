"""Vocabulary selection."""
import framework, vk, train
from framework import Kind

META = {"level": "model_checking", "assumptions": ["the vocabulary is observed through -U and the counts through -W"]}
COUNTS = Kind("select", "Trace_KNCounts", train.trace_counts)
GROW = Kind("select-grow", "Trace_Varigram", train.trace_varigram)


def kinds(ctx):
    ctx.kind(COUNTS)
    ctx.kind(GROW)


def run(ctx):
    rng = ctx.rng
    N = ctx.n(240, 2000)
    ctx.validate(COUNTS, [train.rand_select(rng, train.rand_train(rng)) for _ in range(N)], "counts2kn -f -d")
    ctx.validate(GROW, [train.rand_select(rng, train.rand_varigram(rng)) for _ in range(N // 2)], "varigram_kn -f -d")

    def given(inp):
        w = sorted(set(train.flat(inp["text"])) - {"<UNK>", "<s>"})
        v = [x for x in w if rng.random() < 0.6 and "(" not in x] + ["zz", "yy"][:rng.randint(0, 2)] + ["<s>"]
        rng.shuffle(v)
        inp["vocab"] = train.messy_vocab(rng, v)
        return inp
    ctx.validate(COUNTS, [given(train.rand_train(rng)) for _ in range(N // 2)], "counts2kn -B")
    ctx.validate(GROW, [given(train.rand_varigram(rng)) for _ in range(N // 4)], "varigram_kn -B")
