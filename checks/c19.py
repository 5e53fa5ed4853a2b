"""How counts, words and data are stored changes no model."""
import hashlib, random, re
import framework, vk, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "-S without pruning, and counts2kn -s -C only with a sentence mark in the text or vocabulary",
    "counts beyond 2^31 are reached through tables of highest-order counts"]}


# -- what follows a history ----------------------------------------------------
def observe_lists(ctx, inp):
    nw, text = inp["nw"], inp["text"]
    with vk.Scratch() as d:
        rng = random.Random(inp["layout"])
        f = vk.put(d + "/t", "".join(str(w) + rng.choice([" ", "\n", "\t", "  "]) for w in text))
        req = ["case %d %d %d %s" % (inp["width"], inp["counts"], inp["clear"], f), "%d %d" % (nw, len(inp["ask"]))]
        for what, order, gs in inp["ask"]:
            req.append("%s %d %d" % (what, order, len(gs)))
            req += [" ".join(map(str, g)) for g in gs]
        rc, out, err = vk.run([ctx.bin("sto")], stdin="\n".join(req).encode())
        if rc != 0:
            raise vk.Obs("harness stopped: rc=%s" % rc)
        ls = [l.split() for l in out.decode().split("\n") if l]
        if ls[-1] != ["end"]:
            raise vk.Obs("harness stopped early")
    asked, i = [], 0

    def lst(l, tag):
        if l[0] != tag:
            raise vk.Obs("answers out of order")
        return [list(map(int, x.split(":"))) for x in l[1:]]
    for what, order, gs in inp["ask"]:
        n = len(gs)
        for j, g in enumerate(gs):
            if what == "hist":
                asked.append({"kind": "hist", "g": g, "n": 0, "mem": lst(ls[i + j], "m"), "file": lst(ls[i + n + j], "f")})
            else:
                asked.append({"kind": "gram", "g": g, "n": int(ls[i + j][1]), "mem": [], "file": []})
        i += 2 * n if what == "hist" else n
    return {"text": text, "clear": inp["clear"], "asked": asked}


LISTS = Kind("lists", "Trace_Storage", observe_lists)


def rand_lists(rng):
    nw = rng.choice([1, 2, 3, 4, 7])
    # words far apart, so that narrow storage would mix them up
    text = [rng.randint(1, nw) for _ in range(rng.choice([1, 2, 4, 9, 20, 50, 120]))]
    ask = []
    for _ in range(rng.randint(1, 3)):
        what = rng.choice(["hist", "hist", "gram"])
        order = rng.randint(2 if what == "hist" else 1, min(5, max(2, len(text))))
        l = order - 1 if what == "hist" else order
        if l > len(text):
            continue
        gs = {tuple(text[i:i + l]) for i in range(len(text) - l + 1)} | {tuple(rng.randint(1, nw) for _ in range(l)) for _ in range(3)}
        gs = rng.sample(sorted(gs), rng.randint(1, min(len(gs), 12)))
        ask.append([what, order, [list(g) for g in gs]])
    return {"nw": nw, "text": text, "clear": rng.choice([-1, -1, 1, 2, nw]) if nw > 1 else -1, "width": rng.choice([16, 32]),
            "counts": rng.choice([32, 64]), "ask": ask, "layout": rng.randrange(1 << 30)}


# -- the same run, stored otherwise ---------------------------------------------
def letters(opts):
    return sorted({o[1] for o in opts if re.match(r"^-[A-Za-z0-9]$", o)})


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def wide(w):
    """A text of many words: [seed, words, tokens]"""
    rng = random.Random(w[0])
    ws = ["x%d" % i for i in range(w[1])]
    rng.shuffle(ws)
    t = ws + [ws[int(w[1] * rng.random() ** 4)] for _ in range(w[2] - w[1])]
    return [["<s>"] + t[i:i + 20] + ["</s>"] for i in range(0, len(t), 20)]


def observe_runs(ctx, inp):
    base = dict(inp["base"])
    if "wide" in inp:
        base["text"] = wide(inp["wide"])
    runs = []
    for opts, layout, messy in inp["variants"]:
        i = dict(base, opts=base["opts"] + opts, layout=layout, messy=messy)
        x = {"opts": letters(i["opts"]), "rc": 0, "words": "", "counts": "", "backoffs": "", "model": ""}
        try:
            if inp["prog"] == "counts2kn":
                r = train.counts2kn(ctx, i, want_model=inp["form"] or True)
            else:
                r = train.varigram(ctx, i, model=inp["form"] or True)
            x.update(words=digest(r["words"]), counts=digest(sorted(map(repr, r["counts"]))),
                     backoffs=digest(sorted(map(repr, r["bos"]))), model=digest(r["model"]))
        except vk.Obs as e:
            x["rc"] = str(e)[:160].replace('"', "'").replace("\\", "/")
            if re.search(r"rc=(-\d+|timeout)", x["rc"]):
                return "with %s: %s" % (i["opts"], x["rc"])
        runs.append(x)
    mark = "<s>" in (base["vocab"] if base.get("vocab") is not None else train.flat(base["text"]))
    return {"prog": inp["prog"], "mark": mark, "runs": runs}


RUNS = Kind("runs", "Trace_Runs", observe_runs)


def rand_runs(rng):
    prog = rng.choice(["counts2kn", "varigram_kn"])
    if prog == "counts2kn":
        base = rng.choice([train.rand_train, train.rand_prune])(rng)
    else:
        base = train.rand_varigram(rng)
    if rng.random() < 0.2:
        base = train.rand_select(rng, base)
    o = base["opts"]
    for f in ("-s", "-L", "-S"):
        while f in o:
            o.remove(f)
    if "-H" in o:
        k = o.index("-H")
        del o[k:k + 2]
    grown = prog == "varigram_kn" and rng.random() < 0.6
    if grown:
        o += train.HUGE
    if rng.random() < 0.3:
        base["dev"] = vk.rand_text(rng, 12, 4)
    if rng.random() < 0.08:
        # words longer than the programs read at once
        t = train.flat(base["text"])
        old, new = rng.choice(t), "q" * rng.choice([999, 1000, 1001, 2500, 40000])
        if old not in ("<s>", "</s>", "<UNK>"):
            base["text"] = [[new if w == old else w for w in s] for s in base["text"]]
    vs = [[[], 0, False]]
    for _ in range(rng.randint(2, 4)):
        v = []
        for f, pr in (("-s", 0.4), ("-L", 0.4), ("-S", 0.5 if grown else 0)):
            if rng.random() < pr:
                v.append(f)
        if rng.random() < 0.5:
            v += ["-H", str(rng.choice([1, 2, 3, 7, 50, 1000, 30000]))]
        vs.append([v, rng.randrange(1 << 30), rng.random() < 0.4])
    return {"prog": prog, "base": base, "form": rng.choice(["", "-a", "-x"]), "variants": vs}


def rand_wide(rng, prog):
    nw = rng.choice([33000, 50000, 63900])
    o = ["-3"] if rng.random() < 0.5 else []
    base = {"opts": o + (["-D", "0.5"] + train.HUGE if prog == "varigram_kn" else []), "n": 2, "text": []}
    vs = [[[], 0, False], [["-s"], 1, False], [["-s", "-L", "-H", "200000"], 2, False]]
    if prog == "varigram_kn":
        vs[2][0].append("-S")
    return {"prog": prog, "base": base, "form": rng.choice(["", "-a", "-x"]), "variants": vs, "wide": [rng.randrange(1 << 30), nw, nw + 20000]}


# -- counts beyond an int --------------------------------------------------------
def trace_long(ctx, inp):
    o = inp["opts2"]
    K = 1 << inp["shift"]
    words = inp["words"]
    idx = {w: i + 1 for i, w in enumerate(words)}
    with vk.Scratch() as d:
        vk.put(d + "/u", "".join(w + "\n" for w in words))
        vk.put(d + "/h", "".join(" ".join(str(idx[w]) for w in g) + " %d\n" % (x * K) for g, x in inp["table"]))
        r, arpa = train.rerun(ctx, d, inp, o, ["-Z", "-n", str(inp["n"])], d + "/h")

    def small(x):
        if x % K:
            raise vk.Obs("the count %d is no multiple of 2^%d" % (x, inp["shift"]))
        return x // K
    r["counts"] = [[g, small(x)] for g, x in r["counts"]]
    # a context's total is the second number of its entry
    r["bos"] = [[g, [small(x) if i == inp["den"] else x for i, x in enumerate(v)]] for g, v in r["bos"]]
    return train.recount_case(inp, r, [], o, words, inp["table"], [], "highest")


LONG = Kind("long", "Trace_KNCounts", trace_long)


def rand_long(rng):
    n, nw = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 4])
    words = ["w%d" % i for i in range(nw)]
    table = [[[rng.choice(words) for _ in range(n)], rng.choice([1, 2, 3, 9, 100])] for _ in range(rng.choice([1, 3, 8, 20]))]
    o = ["-A", "-L"] + (["-s"] if rng.random() < 0.4 else [])
    return {"n": n, "words": words, "table": table, "opts2": o, "shift": rng.choice([24, 31, 33, 40]), "den": 1}


def kinds(ctx):
    for k in (LISTS, RUNS, LONG):
        ctx.kind(k)


def run(ctx):
    ctx.model("MC_Storage", None if ctx.quick else "MC_Storage_deep", timeout=3000)
    ctx.refute("MC_Storage", "MC_Storage_narrow")
    ctx.validate(LISTS, [rand_lists(ctx.rng) for _ in range(ctx.n(400, 6000))], "what follows a history")
    ctx.validate(LONG, [rand_long(ctx.rng) for _ in range(ctx.n(60, 800))], "counts beyond 2^31")
    ctx.validate(RUNS, [rand_runs(ctx.rng) for _ in range(ctx.n(180, 2500))], "trainings stored in several ways")
    ctx.validate(RUNS, [rand_wide(ctx.rng, p) for p in ("counts2kn", "varigram_kn") for _ in range(ctx.n(1, 4))], "trainings of many words")
