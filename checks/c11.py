"""Evaluation with a second model: the mixture of both."""
import math
import framework, vk, models, c10
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "the models' values are multiples of 1/8; mixtures are compared within 3/32768 of a decade",
    "a model gives a word it does not know no more than its floor (1e-60)"]}
U = models.UNIT
NONE = c10.NONE
ONE = models.ONE


def units(x):
    v = float(x) * U
    if v != v or abs(v) > 2e9:
        raise vk.Obs("not a log-probability: %s" % x)
    return int(round(v))


def view(m, share):
    return {"p": m["p"], "w": m["w"], "share": share}


def write(d, name, m, unk):
    ren = lambda g: [unk if x == "<UNK>" else x for x in g]
    vk.put(d + "/" + name, models.arpa_text([[ren(g), v / U] for g, v in m["p"]], [[ren(g), v / U] for g, v in m["w"]]))


def observe(ctx, inp):
    with vk.Scratch() as d:
        unk = inp.get("unk", "<UNK>")
        for i, m in enumerate(inp["ms"]):
            write(d, "m%d.arpa" % i, m, unk)
        if inp["kind"] == "queries":
            return queries(ctx, inp, d)
        cmd = [ctx.bin("perplexity"), "-a", d + "/m0.arpa", "-i", d + "/m1.arpa"]
        c = inp["c"]
        share = ONE // 2
        if c is not None:
            cmd += ["-I", repr(c)]
            share = int(round(c * ONE))
        if not inp["tree"]:
            cmd += ["-f"] + (["-s"] if inp["small"] else [])
        if unk != "<UNK>":
            cmd += ["-u", unk]
        if inp["wb"] == "listed":
            vk.put(d + "/wb", "\n".join(inp["breaks"]) + "\n")
            cmd += ["-W", d + "/wb"]
        elif inp["wb"] == "marks":
            vk.put(d + "/mb", "\n".join(("^" + m["text"]) if m["at"] == "start" else m["text"] + "$" for m in inp["marks"]) + "\n")
            cmd += ["-X", d + "/mb"]
        if inp["cues"]:
            vk.put(d + "/ccs", "\n".join(inp["cues"]) + "\n")
            cmd += ["-C", d + "/ccs"]
        if not inp["skip"]:
            cmd.append("-o")
        if inp["init"]:
            cmd += ["-t", str(inp["init"])]
        vk.put(d + "/t", " ".join(inp["text"]) + "\n")
        rc, out, err = vk.run(cmd + ["-S", d + "/s", d + "/t", d + "/r"])
        if rc != 0:
            raise vk.Obs("perplexity failed: rc=%s %s" % (rc, err[-200:].decode("utf-8", "replace")))
        stream = c10.read_stream(open(d + "/s", "rb").read(), units)
        rep = c10.read_report(open(d + "/r", "rb").read(), inp["wb"], inp["skip"], inp["cues"], units, not inp["tree"])
        toks = sorted(set(inp["text"]))
        return {"kind": "text", "ms": [view(inp["ms"][0], ONE - share), view(inp["ms"][1], share)],
                "tree": inp["tree"], "wb": inp["wb"], "breaks": inp["breaks"],
                "marks": [{"at": m["at"], "text": list(m["text"])} for m in inp["marks"]], "cues": inp["cues"],
                "skip": inp["skip"], "init": inp["init"], "chars": [[t, list(t)] for t in toks],
                "text": inp["text"], "stream": stream, "report": rep, "queries": [],
                "unlisted": (-99 if inp["tree"] else -60) * U, "impossible": NONE if inp["tree"] else -60 * U}


def queries(ctx, inp, d):
    cmds = ["inter " + " ".join("%s/m%d.arpa %r" % (d, i, c) for i, c in enumerate(inp["cs"]))]
    cmds += ["q " + " ".join(q) for q in inp["queries"]]
    ans = models.lmq(ctx, cmds)
    return {"kind": "queries", "ms": [view(m, int(round(c * ONE))) for m, c in zip(inp["ms"], inp["cs"])],
            "tree": True, "wb": "each", "breaks": [], "marks": [], "cues": [], "skip": True, "init": 0, "chars": [["x", ["x"]]],
            "text": [], "stream": [], "report": {},
            "queries": [[q, units(a.split()[0])] for q, a in zip(inp["queries"], ans[1:])],
            "unlisted": -99 * U, "impossible": NONE}


MIXED = Kind("mixed", "Trace_Mixed", observe)


def kinds(ctx):
    ctx.kind(MIXED)


def rand_models(rng, n):
    ms = []
    for i in range(n):
        p, w = models.rand_model(rng, positive=False, step=U // 8, nwords=rng.choice([2, 3, 4, 7]), start99=0.3)
        ms.append({"p": p, "w": w})
    if rng.random() < 0.15:
        ms = [ms[0]] * n
    return ms


def vocab(m):
    return [g[0] for g, _ in m["p"] if len(g) == 1 and g[0] != "<UNK>"]


def rand_text(rng, ms, marked):
    voc = [v for m in ms for v in vocab(m)]
    grams = [g for m in ms for g, _ in m["p"]]
    text = []
    for _ in range(rng.choice([1, 2, 4])):
        s = []
        for _ in range(rng.randint(0, 6)):
            r = rng.random()
            s += [rng.choice(voc)] if r < 0.4 else [rng.choice(["nowhere", "<UNK>", "x"])] if r < 0.5 else list(rng.choice(grams))
        text += (["<s>"] if marked else []) + s + (["</s>"] if marked or rng.random() < 0.2 else [])
    return text


def rand(rng):
    ms = rand_models(rng, 2)
    main = vocab(ms[0])
    if not main or not vocab(ms[1]):
        return rand(rng)
    wb = rng.choice(["each", "each", "listed", "marks"])
    init = rng.choice([0, 0, 0, 0, 1, 2])
    tree = rng.random() < 0.5
    both = main + (vocab(ms[1]) if tree else [])
    cues = [] if init or rng.random() < 0.8 else [rng.choice(both)]
    return {"kind": "text", "ms": ms, "c": rng.choice([None, 0.0, 1.0, 0.125, 0.25, 0.5, 0.75, 0.875, 0.3, 0.01, 0.98]),
            "tree": tree, "small": rng.random() < 0.3, "wb": wb,
            "breaks": rng.sample(both, rng.randint(1, len(both))) if wb == "listed" else [],
            "marks": [rng.choice([{"at": "start", "text": "a"}, {"at": "end", "text": "b"}, {"at": "end", "text": "a"}])] if wb == "marks" else [],
            "cues": cues, "skip": rng.random() < 0.6, "init": init, "unk": "UNKNOWN" if rng.random() < 0.2 else "<UNK>",
            "text": rand_text(rng, ms, rng.random() < 0.6)}


def rand_queries(rng):
    n = rng.choice([1, 2, 3, 4])
    ms = rand_models(rng, n)
    cs = {1: [[1.0]], 2: [[0.5, 0.5], [0.25, 0.75], [0.0, 1.0]], 3: [[0.25, 0.25, 0.5], [0.5, 0.0, 0.5], [0.1, 0.2, 0.7]],
          4: [[0.25] * 4, [0.125, 0.5, 0.25, 0.125]]}[n]
    voc = [v for m in ms for v in vocab(m)] + ["<UNK>", "nowhere"]
    order = max(len(g) for m in ms for g, _ in m["p"])
    qs = []
    for _ in range(30):
        if rng.random() < 0.5:
            g = list(rng.choice([g for m in ms for g, _ in m["p"]]))
            if rng.random() < 0.5:
                g[rng.randrange(len(g))] = rng.choice(voc)
        else:
            g = [rng.choice(voc) for _ in range(rng.randint(1, order + 1))]
        qs.append(g)
    return {"kind": "queries", "ms": ms, "cs": rng.choice(cs), "queries": qs}


def run(ctx):
    ctx.model("MC_Mixture", "MC_Mixture_same" if ctx.quick else "MC_Mixture_same_deep", timeout=3000)
    ctx.model("MC_MixLog")
    ctx.validate(MIXED, [rand(ctx.rng) for _ in range(ctx.n(800, 8000))], "random pairs of models and texts")
    ctx.validate(MIXED, [rand_queries(ctx.rng) for _ in range(ctx.n(200, 2000))], "mixtures of up to four models")
