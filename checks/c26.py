"""The library's evaluator and trainer, as programs that link it use them."""
import hashlib, json, os, random, sys, threading
import build, framework, vk, models, train, c10, c19
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "log-probabilities are multiples of 1/8, so that sums are exact in floats and are compared for equality; "
    "through a mixture of one model to the nearest such multiple",
    "not said: what the number of unknown tokens is after a text of which every token is a word, and the hits of a mixture"]}
NONE = -2000000000
U = models.UNIT
HERE = os.path.join(framework.VERIF, "harness")
_py = []
_lock = threading.Lock()


def pydir(ctx):
    with _lock:
        if not _py:
            ctx.bins
            try:
                _py.append(build.build_python())
            except build.BuildError as e:
                ctx.notes.append("the Python module could not be built here, so it was not used")
                ctx.log(str(e)[-300:])
                _py.append(None)
    return _py[0]


def hx(s):
    return s.encode().hex() or "-"


def number(x, mix):
    """A log-probability in units"""
    if mix:
        v = float(x) * 8
        if v != v or abs(v) > 1e6:
            raise vk.Obs("not a log-probability: %s" % x)
        if abs(v - round(v)) > 0.02:
            raise vk.Obs("%s is no sum of the model's values" % x)
        return int(round(v)) * (U // 8)
    v = models.units(x)
    if isinstance(v, str):
        raise vk.Obs("%s is no sum of the model's values" % x)
    return v


def observe(ctx, inp):
    with vk.Scratch() as d:
        unk = inp["unk"]
        ren = lambda g: [unk if x == "<UNK>" else x for x in g]
        vk.put(d + "/m.arpa", models.arpa_text([[ren(g), v / U] for g, v in inp["p"]], [[ren(g), v / U] for g, v in inp["w"]]))
        how, rep = inp["how"], inp["rep"]
        lm = d + "/m.arpa"
        if rep == "bin" or how == "bin":
            rc, out, err = vk.run([ctx.bin("arpa2bin"), d + "/m.arpa", d + "/m.bin"])
            if rc != 0:
                raise vk.Obs("arpa2bin failed: rc=%s" % rc)
            lm = d + "/m.bin"
        names = {"wb": "-", "mb": "-", "ccs": "-"}
        if inp["wb"] == "listed":
            names["wb"] = vk.put(d + "/wb", "\n".join(inp["breaks"]) + "\n")
        elif inp["wb"] == "marks":
            names["mb"] = vk.put(d + "/mb", "\n".join(("^" + m["text"]) if m["at"] == "start" else m["text"] + "$" for m in inp["marks"]) + "\n")
        if inp["cues"]:
            names["ccs"] = vk.put(d + "/ccs", "\n".join(inp["cues"]) + "\n")
        py = inp["py"] and pydir(ctx)
        # the program's type: the file is binary
        req = ["%s %s %d %s %s %s %s %d %d" % (how, lm, rep == "bin", names["ccs"], names["wb"], names["mb"],
                                               "-" if unk == "<UNK>" else unk, {"hash": 1, "hash16": -1}.get(rep, 0), inp["skip"])]
        for c in inp["calls"]:
            op = c["op"]
            if op in ("token", "word", "both"):
                req.append(op + " " + hx(c["w"][0]))
            elif op in ("sent", "file"):
                req.append(op + " " + hx(spaced(c["w"], inp["messy"])))
            else:
                req.append("%s %d" % (op, c["n"]))
        cmd = [sys.executable, HERE + "/pydrv.py", py, "eval"] if py else [ctx.bin("ppl")]
        rc, out, err = vk.run(cmd, stdin=("\n".join(req) + "\n").encode())
        ls = out.decode("utf-8", "replace").split("\n")[:-1]
        if rc != 0 or len(ls) != len(inp["calls"]):
            raise vk.Obs("ended with %s after %d of %d calls: %s" % (rc, len(ls), len(inp["calls"]), err[-200:].decode("utf-8", "replace")))
        order = max(len(g) for g, _ in inp["p"])
        calls, read = [], False
        for c, l in zip(inp["calls"], ls):
            r = l.split()
            if c["op"] == "stats":
                r = [int(x) for x in r]
                if read and inp["wb"] == "each":
                    r[2] = NONE
                if how == "inter":
                    r[3:] = [NONE] * len(r[3:])
            else:
                r = [number(x, how == "inter") for x in r]
            read |= c["op"] == "file"
            calls.append({"op": c["op"], "w": c["w"], "n": c["n"], "r": r})
        toks = sorted({t for c in inp["calls"] for t in c["w"]})
        hashed = rep.startswith("hash")
        return {"p": inp["p"], "w": inp["w"], "order": order, "wb": inp["wb"], "breaks": inp["breaks"],
                "marks": [{"at": m["at"], "text": list(m["text"])} for m in inp["marks"]], "cues": inp["cues"],
                "skip": inp["skip"], "chars": [[t, list(t)] for t in toks], "calls": calls,
                "unlisted": (-60 if hashed else -99) * U, "impossible": -60 * U if hashed else NONE}


def spaced(ws, messy):
    seps = [" ", "\n", "  ", "\t", "\r\n", " \t", "\v", "\f"] if messy else [" "]
    return (seps[-1] if messy and len(ws) % 2 else "") + "".join(t + seps[(i * 7 + len(t)) % len(seps)] for i, t in enumerate(ws))


CALLS = Kind("calls", "Trace_Evaluator", observe)


def shape(rng, inp):
    """How the evaluator is made."""
    inp["how"] = rng.choice(["file", "file", "file", "bin", "share", "inter"])
    inp["rep"] = inp.get("rep") or "tree"
    inp["py"] = rng.random() < 0.35 and all(c["op"] not in ("both", "file") for c in inp["calls"])
    if inp["py"] and inp["how"] == "share":
        inp["how"] = "file"
    if inp["how"] == "bin":
        # takes nothing but the name
        inp.update(rep="bin", unk="<UNK>", wb="each", breaks=[], marks=[], cues=[], skip=True)
    elif inp["how"] != "file" and inp["rep"].startswith("hash"):
        inp["rep"] = "tree"
    if inp["how"] == "inter":
        low = min(v for _, v in inp["p"]) + 5 * min([0] + [v for _, v in inp["w"]])
        if low < -55 * U or ["<UNK>"] not in [g for g, _ in inp["p"]] or inp["unk"] != "<UNK>":
            inp["how"] = "file"
        inp["rep"] = "tree"
    if inp["rep"] == "bin":
        inp["unk"] = "<UNK>"
    return inp


def rand(rng):
    base = c10.rand(rng)
    text = base.pop("text")
    base.pop("init")
    words = sorted({g[0] for g, _ in base["p"]} | {"nowhere", "no+", "</s>"})
    order = max(len(g) for g, _ in base["p"])
    calls, i = [], 0
    while i < len(text) or len(calls) < 4:
        r = rng.random()
        if r < 0.1:
            calls.append({"op": "clear", "w": [], "n": 0})
        elif r < 0.15:
            calls.append({"op": "init", "w": [], "n": 0 if base["cues"] else rng.choice([0, 1, 1, 2, 3])})
        elif r < 0.2:
            calls.append({"op": "reset", "w": [], "n": 0})
        elif r < 0.35:
            calls.append({"op": "stats", "w": [], "n": order + 2})
        else:
            n = rng.choice([0, 1, 2, 5, 9])
            ws = text[i:i + n] or [rng.choice(words) for _ in range(n)]
            i += n
            op = rng.choice(["token", "token", "word", "both", "sent", "sent", "file"])
            if op in ("sent", "file"):
                calls.append({"op": op, "w": ws, "n": 0})
            else:
                calls += [{"op": op, "w": [w], "n": 0} for w in ws]
    calls.append({"op": "stats", "w": [], "n": order + 2})
    if rng.random() < 0.4:
        # only what every caller has
        calls = [dict(c, op={"both": "word", "file": "sent"}.get(c["op"], c["op"])) for c in calls]
    base["calls"] = calls
    return shape(rng, base)


def small(rng, c):
    n = 2
    inp = c10.small({"order": n, "text": [], "wb": c["wb"], "cues": [], "skip": c["skip"], "init": 0}, rng.randrange(4))
    inp["calls"] = c["calls"] + [{"op": "stats", "w": [], "n": 3}]
    inp["unk"] = "<UNK>"
    if c["wb"] == "listed":
        inp["breaks"] = ["b", "</s>"]
    return shape(rng, inp)


# -- training through the module -------------------------------------------------
def val(o, k, dflt=0):
    return type(dflt)(o[o.index(k) + 1]) if k in o else dflt


def observe_train(ctx, inp):
    o = inp["opts"]
    runs = []
    form = train.FORMS.get(inp.get("arpa"))
    try:
        r = train.varigram(ctx, inp, model=form or True)
        runs.append({"opts": c19.letters(o), "rc": 0, "words": "", "counts": "", "backoffs": "", "model": c19.digest(r["model"])})
    except vk.Obs as e:
        raise vk.Obs("the program: %s" % e)
    py = pydir(ctx)
    if py:
        with vk.Scratch() as d:
            rng = random.Random(inp.get("layout", 0))
            vk.put(d + "/t", vk.text_bytes(rng, inp["text"], messy=inp.get("messy", False)))
            if inp.get("vocab") is not None:
                vk.put(d + "/v", "".join(w + "\n" for w in inp["vocab"]))
            if inp.get("dev") is not None:
                vk.put(d + "/d", vk.text_bytes(rng, inp["dev"]))
            req = {"three": "-3" in o, "absolute": "-A" in o, "D": max(0.00001, val(o, "-D", 1.0)), "E": val(o, "-E", 0.0),
                   "V": val(o, "-V"), "n": inp.get("n") or 0, "text": d + "/t", "H": val(o, "-H"), "ndrop": val(o, "-d"), "nfirst": val(o, "-f"),
                   "dev": d + "/d" if inp.get("dev") is not None else "", "clear": "-C" in o, "S": "-S" in o,
                   "vocab": d + "/v" if inp.get("vocab") is not None else "",
                   "cutoffs": [int(x) for x in o[o.index("-O") + 1].split()] if "-O" in o else [],
                   "N": "-N" in o, "F": val(o, "-F", -1.0), "out": d + "/m", "arpa": inp.get("arpa") == "arpa"}
            rc, out, err = vk.run([sys.executable, HERE + "/pydrv.py", py, "train"], stdin=json.dumps(req).encode())
            x = {"opts": c19.letters(o), "rc": 0, "words": "", "counts": "", "backoffs": "", "model": ""}
            if rc != 0:
                x["rc"] = "the module: %s" % rc
            else:
                x["model"] = c19.digest(open(d + "/m", "rb").read())
            runs.append(x)
    return {"prog": "varigram_kn", "mark": "<s>" in (inp["vocab"] if inp.get("vocab") is not None else train.flat(inp["text"])), "runs": runs}


TRAIN = Kind("training", "Trace_Runs", observe_train)


def rand_training(rng):
    inp = train.rand_varigram(rng)
    inp.pop("prune", None)
    if rng.random() < 0.2:
        inp = train.rand_select(rng, inp)
    o = inp["opts"]
    # the module has wide words only
    for f in ("-s", "-L"):
        while f in o:
            o.remove(f)
    if "-S" in o:
        for f in ("-E", "-O"):
            if f in o:
                i = o.index(f)
                del o[i:i + 2]
        if "-V" not in o:
            o += train.HUGE
    elif rng.random() < 0.25:
        o += ["-V", str(rng.choice([20, 60, 1000]))]
    if rng.random() < 0.2:
        o += ["-F", rng.choice(["0", "0.25", "0.7", "1"])]
    if rng.random() < 0.3:
        inp["dev"] = vk.rand_text(rng, 12, 4)
    inp["arpa"] = rng.choice(["arpa", "", ""])
    return inp


def kinds(ctx):
    for k in (CALLS, TRAIN):
        ctx.kind(k)


def run(ctx):
    ctx.model("MC_Evaluator", None if ctx.quick else "MC_Evaluator_deep")
    cases = ctx.generate("MC_Evaluator", "Gen_Evaluator" if ctx.quick else "Gen_Evaluator_deep")
    n = ctx.n(900, 12000)
    if len(cases) > n:
        cases = ctx.rng.sample(cases, n)
    ctx.validate(CALLS, [small(ctx.rng, c) for c in cases], "short sequences of calls of the specification")
    ctx.validate(CALLS, [rand(ctx.rng) for _ in range(ctx.n(900, 9000))], "random models and calls")
    ctx.validate(TRAIN, [rand_training(ctx.rng) for _ in range(ctx.n(120, 1500))], "training through the module")
