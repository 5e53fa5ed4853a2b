"""Evaluation of texts: the token state machine of Perplexity.tla."""
import math, re
import framework, vk, models
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "log-probabilities are multiples of 1/8, so that sums are exact in floats and are compared for equality",
    "the printed perplexities are compared with the printed bits, and those with the log-probability, within rounding"]}
NONE = -2000000000
U = models.UNIT


def fields(pat, text):
    m = re.match("^" + pat + "$", text)
    if not m:
        raise vk.Obs("report line not understood: %r" % text)
    return m.groups()


def fl(x, scale):
    v = float(x) * scale
    return NONE if v != v or abs(v) > 1.9e9 else int(round(v))


def lg(x):
    v = float(x)
    return NONE if not v > 0 or v == math.inf else int(round(math.log2(v) * 1000))


NUM = r"(-?(?:[\d.]+(?:e[+-]\d+)?|nan|inf))"


def read_report(data, wb, skip, cues, units=models.units, hits=True):
    ls = [l for l in data.decode("utf-8", "replace").split("\n") if l.strip()]
    r = {k: NONE for k in ("tunks", "tunkpct", "ccs", "tokens", "tottokens", "toklp", "tokroot", "tokbits", "tokppl2")}
    it = iter(ls)

    def nxt():
        try:
            return next(it)
        except StopIteration:
            raise vk.Obs("report ends early")
    a = fields(("Dropped: " if skip else "Found:   ") + r"\s+(\d+) UNKS, " + NUM + " %", nxt())
    r["unks"], r["unkpct"] = int(a[0]), fl(a[1], 100)
    if wb != "each":
        a = fields(r"\s+(\d+) TUNKS, " + NUM + " %", nxt())
        r["tunks"], r["tunkpct"] = int(a[0]), fl(a[1], 100)
    if cues:
        r["ccs"] = int(fields((r"\s+" if skip else r"Dropped:\s+") + r"(\d+) context cues", nxt())[0])
    r["words"] = int(fields(r"Processed:\s+(\d+) words", nxt())[0])
    if wb != "each":
        r["tokens"] = int(fields(r"\s+(\d+) tokens", nxt())[0])
    r["totwords"] = int(fields(r"Total:\s+(\d+) words", nxt())[0])
    if wb != "each":
        r["tottokens"] = int(fields(r"\s+(\d+) tokens", nxt())[0])
    r["logprob"] = units(fields("Logprob " + NUM, nxt())[0])
    a = fields("Perplexity " + NUM + r" \(- (-?\d+)th root\) = " + NUM + " bits", nxt())
    r["ppl2"], r["root"], r["bits"] = lg(a[0]), int(a[1]), fl(a[2], 1000)
    a = fields(r"Perplexity \(sentence ends not in normalization\) " + NUM + r" \(- (-?\d+)th root\) = " + NUM + " bits", nxt())
    r["ppl22"], r["root2"], r["bits2"] = lg(a[0]), int(a[1]), fl(a[2], 1000)
    l = next(it, "")
    if l.startswith("Tokenwise"):
        r["toklp"] = units(fields("Tokenwise logprob " + NUM, l)[0])
        a = fields("Tokenwise perplexity " + NUM + r" \(- (-?\d+)th root\) = " + NUM + " bits", nxt())
        r["tokppl2"], r["tokroot"], r["tokbits"] = lg(a[0]), int(a[1]), fl(a[2], 1000)
        l = next(it, "")
    r["hits"] = []
    if not hits and l == "":
        return r
    fields("Ngram hit rates:", l)
    for i, l in enumerate(it):
        a = fields(r"(\d+): " + NUM, l)
        if int(a[0]) != i + 1:
            raise vk.Obs("hit rates out of order")
        r["hits"].append(fl(a[1], 1000))
    for k in ("logprob", "toklp"):
        if isinstance(r[k], str):
            raise vk.Obs("%s %s is no sum of the model's values" % (k, r[k]))
    return r


def read_stream(data, units=models.units):
    out = []
    for l in data.decode("utf-8", "replace").split("\n"):
        if l == "":
            continue
        m = re.match(r"^(\S+) (\S+), order (\d+) \(cfw_lp (\S+)\)$", l)
        if not m:
            raise vk.Obs("stream line not understood: %r" % l)
        p = float(m.group(2))
        if not p > 0:
            raise vk.Obs("probability %s in the stream" % m.group(2))
        w = units(m.group(4))
        if isinstance(w, str):
            raise vk.Obs("word log-probability %s is no sum of the model's values" % w)
        out.append([m.group(1), int(round(math.log10(p) * U)), int(m.group(3)), w])
    return out


def text_of(inp):
    seps = [" ", " ", "\n", "  ", "\t", "\r\n"]
    return "".join(t + (seps[(i * 7 + len(t)) % 6] if inp["messy"] else " ") for i, t in enumerate(inp["text"]))


def observe(ctx, inp):
    with vk.Scratch() as d:
        unk = inp.get("unk", "<UNK>")
        ren = lambda g: [unk if x == "<UNK>" else x for x in g]
        vk.put(d + "/m.arpa", models.arpa_text([[ren(g), v / U] for g, v in inp["p"]], [[ren(g), v / U] for g, v in inp["w"]]))
        cmd = [ctx.bin("perplexity")]
        rep = inp["rep"]
        if rep == "bin":
            rc, out, err = vk.run([ctx.bin("arpa2bin"), d + "/m.arpa", d + "/m.bin"])
            if rc != 0:
                raise vk.Obs("arpa2bin failed: rc=%s" % rc)
            cmd += ["-A", d + "/m.bin"]
        else:
            cmd += ["-a", d + "/m.arpa"] + {"tree": [], "hash": ["-f"], "hash16": ["-f", "-s"]}[rep]
        if unk != "<UNK>":
            cmd += ["-u", unk]
        if inp["wb"] == "listed":
            vk.put(d + "/wb", "\n".join(inp["breaks"]) + "\n")
            cmd += ["-W", d + "/wb"]
        elif inp["wb"] == "marks":
            vk.put(d + "/mb", "\n".join(("^" + m["text"]) if m["at"] == "start" else m["text"] + "$" for m in inp["marks"]) + "\n")
            cmd += ["-X", d + "/mb"]
        if inp["cues"]:
            vk.put(d + "/ccs", "\n".join(inp["cues"]) + "\n")
            cmd += ["-C", d + "/ccs"]
        if not inp["skip"]:
            cmd.append("-o")
        if inp["init"]:
            cmd += ["-t", str(inp["init"])]
        vk.put(d + "/t", text_of(inp))
        rc, out, err = vk.run(cmd + ["-S", d + "/s", d + "/t", d + "/r"])
        if rc != 0:
            raise vk.Obs("perplexity failed: rc=%s %s" % (rc, err[-200:].decode("utf-8", "replace")))
        stream = read_stream(open(d + "/s", "rb").read())
        rep = read_report(open(d + "/r", "rb").read(), inp["wb"], inp["skip"], inp["cues"])
        # the report does not depend on whether the stream is written
        rc, out, err = vk.run(cmd + [d + "/t", d + "/r2"])
        if rc != 0 or open(d + "/r2", "rb").read() != open(d + "/r", "rb").read():
            return "the report depends on writing the stream"
        toks = sorted(set(inp["text"]))
        order = max(len(g) for g, _ in inp["p"])
        return {"p": inp["p"], "w": inp["w"], "order": order, "wb": inp["wb"], "breaks": inp["breaks"],
                "marks": [{"at": m["at"], "text": list(m["text"])} for m in inp["marks"]], "cues": inp["cues"],
                "skip": inp["skip"], "init": inp["init"], "chars": [[t, list(t)] for t in toks],
                "text": inp["text"], "stream": stream, "report": rep,
                "unlisted": (-60 if inp["rep"].startswith("hash") else -99) * U,
                "impossible": -60 * U if inp["rep"].startswith("hash") else NONE}


PPL = Kind("perplexity", "Trace_Perplexity", observe)


def kinds(ctx):
    ctx.kind(PPL)


def rand(rng):
    p, w = models.rand_model(rng, positive=False, step=U // 8, nwords=rng.choice([2, 4, 7, 10]), start99=0.3)
    vocab = [g[0] for g, _ in p if len(g) == 1 and g[0] != "<UNK>"]
    if rng.random() < 0.5:
        # morphs
        vocab2 = {v: v + "+" for v in vocab if v[0] != "<" and rng.random() < 0.4}
        f = lambda g: [vocab2.get(x, x) for x in g]
        p, w = [[f(g), v] for g, v in p], [[f(g), v] for g, v in w]
        vocab = [vocab2.get(x, x) for x in vocab]
    unkt = ["nowhere", "no+", "+no", "<UNK>", "x"]
    marked = ("<s>" in vocab) and rng.random() < 0.7
    text = []
    grams = [g for g, _ in p if len(g) > 1] or [[v] for v in vocab]
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        s = []
        for _ in range(rng.randint(0, 6)):
            r = rng.random()
            s += [rng.choice(vocab)] if r < 0.4 else [rng.choice(unkt)] if r < 0.6 else list(rng.choice(grams))
        text += (["<s>"] if marked else []) + s + (["</s>"] if marked or rng.random() < 0.2 else [])
    wb = rng.choice(["each", "listed", "marks", "marks"])
    marks = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.6:
            marks.append({"at": rng.choice(["start", "end"]), "text": "+"})
        else:
            t = rng.choice(vocab + unkt)
            n = rng.randint(1, len(t))
            marks.append(rng.choice([{"at": "start", "text": t[:n]}, {"at": "end", "text": t[-n:]}]))
    init = rng.choice([0, 0, 0, 0, 1, 1, 2, 3])
    cues = [] if init or rng.random() < 0.6 else rng.sample(vocab, rng.randint(1, min(2, len(vocab))))
    rep = rng.choice(["tree", "tree", "hash", "hash16", "bin"])
    # a binary model has the default symbol
    unk = "UNKNOWN" if rep != "bin" and rng.random() < 0.2 else "<UNK>"
    return {"p": p, "w": w, "text": text, "wb": wb, "breaks": rng.sample(vocab, rng.randint(1, len(vocab))) if wb == "listed" else [],
            "marks": marks if wb == "marks" else [], "cues": cues, "skip": rng.random() < 0.6, "init": init, "unk": unk,
            "rep": rep, "messy": rng.random() < 0.5}


SMALL_P = [[["<UNK>"], -1.5], [["a"], -0.5], [["b"], -0.625], [["a+"], -1.0], [["<s>"], -1.25], [["</s>"], -0.75],
           [["a", "b"], -0.25], [["<s>", "a"], -0.125], [["a+", "b"], -0.375], [["a", "</s>"], -0.875]]
SMALL_W = [[["a"], -0.125], [["<s>"], -0.25], [["a+"], -0.5], [["b"], -0.375]]


def small(c, i):
    n = c["order"]
    return {"p": [[g, int(v * U)] for g, v in SMALL_P if len(g) <= n], "w": [[g, int(v * U)] for g, v in SMALL_W] if n > 1 else [],
            "text": c["text"], "wb": c["wb"], "breaks": ["b", "</s>"] if c["wb"] == "listed" else [],
            "marks": [{"at": "end", "text": "+"}] if c["wb"] == "marks" else [], "cues": c["cues"], "skip": c["skip"],
            "init": c["init"], "rep": ["tree", "hash", "hash16", "bin"][i % 4], "messy": False}


def run(ctx):
    ctx.model("MC_Perplexity")
    cases = ctx.generate("MC_Perplexity", "Gen_Perplexity")
    if ctx.quick:
        cases = ctx.rng.sample(cases, 1500)
    ctx.validate(PPL, [small(c, i) for i, c in enumerate(cases)], "short texts of the specification")
    ctx.validate(PPL, [rand(ctx.rng) for _ in range(ctx.n(600, 8000))], "random models and texts")
