"""Observing training runs (counts2kn, varigram_kn)."""
import os, random
import vk


def alias(words):
    return words


def flat(sents):
    return [w for s in sents for w in s]


def counts2kn(ctx, inp, want_counts=True, want_model=None):
    """inp: text (list of sentences), seed for layout, options.
    Returns dict(words=, counts=, bos=, model=bytes)"""
    with vk.Scratch() as d:
        rng = random.Random(inp.get("layout", 0))
        vk.put(d + "/t.txt", vk.text_bytes(rng, inp["text"], messy=inp.get("messy", False)))
        cmd = [ctx.bin("counts2kn")]
        o = inp.get("opts", [])
        cmd += o
        if inp.get("n"):
            cmd += ["-n", str(inp["n"])]
        if inp.get("vocab") is not None:
            vk.put(d + "/voc", "".join(w + "\n" for w in inp["vocab"]))
            cmd += ["-B", d + "/voc"]
        if inp.get("dev") is not None:
            vk.put(d + "/dev.txt", vk.text_bytes(rng, inp["dev"]))
            cmd += ["-o", d + "/dev.txt"]
        cmd += ["-W", d + "/c", "-U", d + "/u", d + "/t.txt", d + "/m"]
        if want_model and want_model is not True:
            cmd += [want_model]
        rc, out, err = vk.run(cmd, cwd=d)
        if rc != 0:
            raise vk.Obs("training failed: rc=%s %s" % (rc, err[-300:].decode("utf-8", "replace")))
        words = vk.read_vocab(d + "/u")
        r = {"words": words}
        if want_counts:
            r["counts"], r["bos"] = vk.read_counts(d + "/c", words, "-3" in o)
        if want_model:
            with open(d + "/m", "rb") as f:
                r["model"] = f.read()
        r["err"] = err.decode("utf-8", "replace")
        return r


def optint(o, k, dflt=0):
    return int(o[o.index(k) + 1]) if k in o else dflt


def vocabmode(inp):
    o = inp.get("opts", [])
    if inp.get("vocab") is not None:
        return "given"
    return "select" if "-f" in o or "-d" in o else "grow"


FORMS = {"arpa": "-a", "narpa": "-x"}


def arpa_view(data, inp):
    """The model file for FileDiff of KNProb: [gram, log10 * 1e5, weight * 1e5]"""
    arpa = []
    a = vk.read_arpa(data)
    if a.interpolated != (inp["arpa"] == "narpa"):
        return "the file's form is not the one asked for"
    for g, lp, bo in a.grams:
        arpa.append([g, int(round(lp * 1e5)), 10000000 if bo is None else int(round(bo * 1e5))])
    want = [sum(1 for g in a.grams if len(g[0]) == k + 1) for k in range(len(a.header))]
    if want != a.header:
        return "the header announces %s n-grams, the file holds %s" % (a.header, want)
    return arpa


def trace_counts(ctx, inp):
    """Kind observe: a counts2kn run for Trace_KNCounts."""
    o = inp.get("opts", [])
    r = counts2kn(ctx, inp, want_model=FORMS.get(inp.get("arpa")))
    arpa = arpa_view(r["model"], inp) if inp.get("arpa") else []
    if isinstance(arpa, str):
        return arpa
    thr = 0
    if "-p" in o:
        thr = int(round(float(o[o.index("-p") + 1]) * 1e5))
    cut = []
    if "-O" in o:
        cut = [int(x) for x in o[o.index("-O") + 1].split()]
    return {"from": "text", "cin": [], "bin": [],
            "text": flat(inp["text"]), "n": inp["n"], "absolute": "-A" in o, "clear": "-C" in o,
            "three": "-3" in o, "restrict": inp.get("vocab") is not None,
            "vocab": inp.get("vocab") or [],
            "vocabmode": vocabmode(inp), "nfirst": optint(o, "-f"), "ndrop": optint(o, "-d"),
            "words": r["words"], "counts": r["counts"], "bos": r["bos"],
            "pruned": bool(cut) or "-N" in o or "-p" in o,
            "arpa": arpa, "form": inp.get("arpa", ""), "decide": bool(inp.get("decide")) and (bool(cut) or "-N" in o or thr > 0),
            "thr": thr, "real": "-r" in o,
            "cutoffs": cut, "discard": "-D" in o, "dropunk": "-N" in o}


def varigram(ctx, inp, extra=(), model=None, cap=False):
    """One varigram_kn run -> words, counts, back-offs (and the model file).
    cap: a run that does not end is ended by what it reports."""
    with vk.Scratch() as d:
        rng = random.Random(inp.get("layout", 0))
        vk.put(d + "/t.txt", vk.text_bytes(rng, inp["text"], messy=inp.get("messy", False)))
        o = inp.get("opts", [])
        cmd = [ctx.bin("varigram_kn")] + o + list(extra)
        if inp.get("n"):
            cmd += ["-n", str(inp["n"])]
        if inp.get("vocab") is not None:
            vk.put(d + "/voc", "".join(w + "\n" for w in inp["vocab"]))
            cmd += ["-B", d + "/voc"]
        if inp.get("dev") is not None:
            vk.put(d + "/dev.txt", vk.text_bytes(rng, inp["dev"]))
            cmd += ["-o", d + "/dev.txt"]
        cmd += ["-W", d + "/c", "-U", d + "/u", d + "/t.txt", d + "/m"]
        if model and model is not True:
            cmd += [model]
        if cap:
            cmd = ["bash", "-o", "pipefail", "-c", '"$@" 2>&1 >/dev/null | head -c 3000000', "cap"] + cmd
            rc, err, out = vk.run(cmd, cwd=d, timeout=20)
            if rc in (141, "timeout"):
                raise vk.Obs("training does not end: rc=%s" % rc)
        else:
            rc, out, err = vk.run(cmd, cwd=d)
        if rc != 0:
            raise vk.Obs("training failed: rc=%s %s" % (rc, err[-300:].decode("utf-8", "replace")))
        words = vk.read_vocab(d + "/u")
        counts, bos = vk.read_counts(d + "/c", words, "-3" in o)
        r = {"words": words, "counts": counts, "bos": bos, "err": err.decode("utf-8", "replace")}
        if model:
            with open(d + "/m", "rb") as f:
                r["model"] = f.read()
        return r


HUGE = ["-V", "1000000000"]


def trace_varigram(ctx, inp):
    """Kind observe: the grown state and, if asked for, the pruned one."""
    o = inp["opts"]
    g = varigram(ctx, inp, HUGE)
    f = varigram(ctx, inp, model=FORMS.get(inp.get("arpa"))) if inp.get("prune") else None
    if inp.get("arpa") and not f:
        g = varigram(ctx, inp, HUGE, model=FORMS[inp["arpa"]])
    arpa = arpa_view((f or g)["model"], inp) if inp.get("arpa") else []
    if isinstance(arpa, str):
        return arpa
    if f and f["words"] != g["words"]:
        return "the vocabulary depends on pruning"
    cut = [int(x) for x in o[o.index("-O") + 1].split()] if "-O" in o else []
    return {"text": flat(inp["text"]), "absolute": "-A" in o, "clear": "-C" in o, "three": "-3" in o,
            "vocabmode": vocabmode(inp), "vocab": inp.get("vocab") or [], "words": g["words"],
            "nfirst": optint(o, "-f"), "ndrop": optint(o, "-d"), "maxorder": inp.get("n") or 0,
            "grown": g["counts"], "grownbos": g["bos"], "pruned": f is not None,
            "final": f["counts"] if f else [], "finalbos": f["bos"] if f else [],
            "arpa": arpa, "form": inp.get("arpa", ""), "full": "-Z" not in o,
            "force": int(round(float(o[o.index("-F") + 1]) * 10000)) if "-F" in o else -1,
            "cutoffs": cut, "dropunk": "-N" in o}


def rand_varigram(rng):
    n = rng.choice([0, 2, 3, 3, 4, 5, 8])
    opts = ["-D", rng.choice(["0.00001", "0.0001", "0.001", "0.01", "0.02", "0.05", "0.1", "0.3", "1"])]
    for f, pr in (("-A", 0.25), ("-C", 0.45), ("-3", 0.5), ("-s", 0.25), ("-L", 0.25), ("-S", 0.3)):
        if rng.random() < pr:
            opts.append(f)
    if rng.random() < 0.5:
        opts += ["-H", str(rng.choice([1, 3, 17, 100, 1000]))]
    nw = rng.choice([1, 2, 3, 4, 6, 10])
    names = rng.sample(NAMES, nw) if rng.random() < 0.3 else ["w%d" % i for i in range(nw)]
    marks = "-C" in opts or rng.random() < 0.6
    ntok = rng.choice([2, 5, 12, 25, 40, 60])
    text = vk.rand_text(rng, ntok, nw, marks=marks, names=names,
                        unk=rng.choice([0, 0, 0, 0.3]), zipf=rng.choice([0.3, 1.0, 1.6]))
    inp = {"text": text, "opts": opts, "layout": rng.randrange(1 << 30), "messy": rng.random() < 0.3}
    if n:
        inp["n"] = n
    if rng.random() < 0.3:
        allw = sorted(set(flat(text)) - {"<UNK>", "<s>"})
        v = [w for w in allw if rng.random() < 0.7] + ["zz%d" % i for i in range(rng.randint(0, 2))]
        if "-C" in opts or "<s>" in flat(text):
            v.append("<s>")
        if not v:
            v = ["zz0"]
        rng.shuffle(v)
        inp["vocab"] = v
    if rng.random() < 0.6:
        inp["prune"] = True
        if rng.random() < 0.6:
            opts += ["-E", rng.choice(["0.001", "0.01", "0.05", "0.2", "1", "10"])]
        if rng.random() < 0.3:
            opts += ["-O", " ".join(["0"] + [rng.choice(["0", "1", "1", "2"]) for _ in range(rng.randint(1, 3))])]
        if rng.random() < 0.3:
            opts.append("-N")
    return inp


def rand_select(rng, inp):
    """Let the program choose the vocabulary itself."""
    inp.pop("vocab", None)
    o = inp["opts"]
    m = rng.random()
    if m < 0.7:
        o += ["-f", str(rng.choice([1, 2, 3, 4, 5, 8, 20]))]
    if m > 0.4:
        o += ["-d", str(rng.choice([0, 1, 2, 3, 3, 4, 6]))]
    if "-C" in o:
        # the sentence start must be among the words
        if not keeps_start(inp):
            o.remove("-C")
    return inp


def messy_vocab(rng, words):
    """A word list as people write them."""
    out = []
    for w in words:
        r = rng.random()
        if r < 0.2:
            w = rng.choice(["", " ", "\t"]) + w + rng.choice([" ", "\t", "\r", "  "])
        elif r < 0.35:
            w = w + rng.choice(["(2)", " k a t", "(x) y", " 3"])
        out.append(w)
        if rng.random() < 0.1:
            out.append(rng.choice(["", "_", "__", "   ", words[0], "<UNK>"]))
    return out


def keeps_start(inp):
    t = flat(inp["text"])
    o = inp["opts"]
    n = t.count("<s>")
    if n == 0 or n < optint(o, "-d"):
        return False
    f = optint(o, "-f")
    return not f or sum(1 for w in set(t) - {"<UNK>"} if t.count(w) >= n) <= f


NAMES = ["a", "b", "c", "d", "e", "</s>x", "<s>-", "f", "g", "h", "ab", "ba", "A", "B", "1", "10", "-", "--x",
         "\\data\\", "#x", "it's", "x,y", "foo:bar", "<x>", "</x>", "&", "%d", "%s", "a=b", "*", "+1", "0"]


def rand_train(rng, big=False):
    n = rng.choice([1, 2, 2, 3, 3, 3, 4, 5])
    opts = []
    if rng.random() < 0.35:
        opts.append("-A")
    if rng.random() < 0.4:
        opts.append("-C")
    if rng.random() < 0.5:
        opts.append("-3")
    if rng.random() < 0.25:
        opts.append("-s")
    if rng.random() < 0.25:
        opts.append("-L")
    if rng.random() < 0.5:
        opts += ["-H", str(rng.choice([1, 3, 17, 100, 1000, 5000]))]
    marks = rng.random() < 0.6
    nw = rng.choice([1, 2, 3, 4, 6, 10])
    names = ["w%d" % i for i in range(nw)]
    if rng.random() < 0.4:
        names = rng.sample(NAMES, nw)
    ntok = rng.choice([1, 2, 5, 12, 25, 40, 60] + ([120] if big else []))
    text = vk.rand_text(rng, ntok, nw, marks=marks, names=names,
                        unk=rng.choice([0, 0, 0, 0.3]), zipf=rng.choice([0.3, 1.0, 1.6]))
    if marks and rng.random() < 0.2:
        # consecutive marks and sentences without their marks
        i = rng.randrange(len(text))
        text[i] = ["<s>", "<s>"] + text[i]
    if "-C" in opts and "-s" in opts and "<s>" not in flat(text):
        opts.remove("-s")     # the vocabulary is read from the text first: no <s> in it
    inp = {"text": text, "n": n, "opts": opts, "layout": rng.randrange(1 << 30),
           "messy": rng.random() < 0.3}
    if rng.random() < 0.3:
        allw = sorted(set(flat(text)) - {"<UNK>", "<s>"})
        keep = [w for w in allw if rng.random() < 0.7]
        extra = ["zz%d" % i for i in range(rng.randint(0, 2))]
        v = keep + extra
        if "-C" in opts or "<s>" in flat(text):
            v.append("<s>")
        if not v:
            v = ["zz0"]
        rng.shuffle(v)
        inp["vocab"] = v
    return inp


def rand_prune(rng, big=False):
    inp = rand_train(rng, big)
    inp["n"] = rng.choice([2, 2, 3, 3, 4])
    if rng.random() < 0.7 and "-A" in inp["opts"]:
        inp["opts"].remove("-A")
    o = inp["opts"]
    m = rng.random()
    if m < 0.55:
        k = rng.randint(1, inp["n"])
        cuts = [0] + [rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(k)]
        o += ["-O", " ".join(map(str, cuts))]
        if rng.random() < 0.4:
            o.append("-D")
    if rng.random() < 0.35:
        o.append("-N")
    if rng.random() < 0.5 or not ({"-O", "-N"} & set(o)):
        o += ["-p", rng.choice(["0.001", "0.01", "0.05", "0.2", "1", "100"])]
    if rng.random() < 0.25:
        o.append("-r")
    return inp


def rand_decide(rng):
    """Small pruning runs, on which the choice itself is decided."""
    while True:
        inp = rand_prune(rng)
        inp["n"] = rng.choice([2, 2, 2, 3])
        t = flat(inp["text"])[:rng.choice([4, 6, 8, 10, 14])]
        inp["text"] = [t]
        o = inp["opts"]
        if "-C" in o and "-s" in o and "<s>" not in t:
            o.remove("-s")
        if "-p" in o:
            o[o.index("-p") + 1] = rng.choice(["0.0005", "0.002", "0.005", "0.01", "0.015", "0.02", "0.03", "0.05", "0.08", "0.15", "0.4"])
        k = len({tuple(t[i:i + 2]) for i in range(len(t) - 1)})
        if k <= 9 and (inp["n"] == 2 or k <= 7):
            inp["decide"] = True
            return inp


# ---------------------------------------------------------------------------
# count files as input

SPLIT = ("-p", "-O", "-N", "-D", "-r")


def recount_case(inp, r, arpa, o, words, cin, bin_, frm):
    thr = int(round(float(o[o.index("-p") + 1]) * 1e5)) if "-p" in o else 0
    cut = [int(x) for x in o[o.index("-O") + 1].split()] if "-O" in o else []
    pruned = bool(cut) or "-N" in o or "-p" in o
    return {"from": frm, "cin": cin, "bin": bin_, "text": flat(inp.get("text", [])), "n": inp["n"],
            "absolute": "-A" in o, "clear": False, "three": "-3" in o, "restrict": True,
            "vocab": words, "vocabmode": "given", "nfirst": 0, "ndrop": 0,
            "words": r["words"], "counts": r["counts"], "bos": r["bos"], "pruned": pruned,
            "arpa": arpa, "form": inp.get("arpa", ""),
            "decide": bool(inp.get("decide")) and pruned,
            "thr": thr, "real": "-r" in o, "cutoffs": cut, "discard": "-D" in o, "dropunk": "-N" in o}


def rerun(ctx, d, inp, o, extra, source):
    """counts2kn from a count file; everything lies in d already"""
    cmd = [ctx.bin("counts2kn")] + o + extra + ["-B", d + "/u", "-W", d + "/c2", "-U", d + "/u2"]
    cmd += [source, d + "/m2"]
    if inp.get("arpa"):
        cmd.append(FORMS[inp["arpa"]])
    rc, out, err = vk.run(cmd, cwd=d)
    if rc != 0:
        raise vk.Obs("training from counts failed: rc=%s %s" % (rc, err[-300:].decode("utf-8", "replace")))
    words = vk.read_vocab(d + "/u2")
    counts, bos = vk.read_counts(d + "/c2", words, "-3" in o)
    arpa = []
    if inp.get("arpa"):
        with open(d + "/m2", "rb") as f:
            arpa = arpa_view(f.read(), inp)
    return {"words": words, "counts": counts, "bos": bos}, arpa


def blanks_in_list(rng, path):
    """The same words, as other editors write them: blanks, empty lines, a word twice."""
    ls = vk.lines(path)
    out = []
    for l in ls:
        if rng.random() < 0.2:
            out.append(rng.choice(["", " ", "\t ", ls[0] if out else ""]))
        out.append(rng.choice(["", "", " ", "\t"]) + l + rng.choice(["", "", " ", "\t", "\r"]))
    vk.put(path, "".join(l + "\n" for l in out))


def shuffle_counts(rng, path):
    """Reorder the entries within the sections of a count file."""
    out, cur = [], []
    for l in open(path, encoding="utf-8", errors="surrogateescape").read().split("\n"):
        if l.startswith("["):
            cur.append(l)
        else:
            rng.shuffle(cur)
            out += cur + [l]
            cur = []
    with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write("\n".join(out + cur))


def trace_recount(ctx, inp):
    """Kind observe: a first run writes its counts, a second starts from them."""
    rng = random.Random(inp.get("layout", 0))
    o1, o2 = inp["opts"], inp["opts2"]
    with vk.Scratch() as d:
        vk.put(d + "/t.txt", vk.text_bytes(rng, inp["text"]))
        cmd = [ctx.bin("varigram_kn" if inp.get("grow") else "counts2kn")] + o1
        if inp["n"] and not inp.get("grow"):
            cmd += ["-n", str(inp["n"])]
        if inp.get("vocab") is not None:
            vk.put(d + "/voc", "".join(w + "\n" for w in inp["vocab"]))
            cmd += ["-B", d + "/voc"]
        cmd += ["-W", d + "/c", "-U", d + "/u", d + "/t.txt", d + "/m"]
        rc, out, err = vk.run(cmd, cwd=d)
        if rc != 0:
            raise vk.Obs("training failed: rc=%s %s" % (rc, err[-300:].decode("utf-8", "replace")))
        words = vk.read_vocab(d + "/u")
        cin, bin_ = vk.read_counts(d + "/c", words, "-3" in o1)
        if inp.get("shuffle"):
            shuffle_counts(rng, d + "/c")
        if inp.get("blanks"):
            blanks_in_list(rng, d + "/u")
        extra = ["-c"]
        if inp.get("saynorder"):
            extra += ["-n", str(inp["n"])]
        if "-r" in o2:
            extra += ["-R", d + "/t.txt"]
        r, arpa = rerun(ctx, d, inp, o2, extra, d + "/c")
    if isinstance(arpa, str):
        return arpa
    c = recount_case(inp, r, arpa, o2, words, cin, bin_, "counts")
    if inp.get("grow"):
        c["n"] = max(1, max((len(g) for g, _ in cin), default=1))
    return c


def trace_highest(ctx, inp):
    """Kind observe: training from a table of highest-order counts."""
    rng = random.Random(inp.get("layout", 0))
    o = inp["opts2"]
    words = inp["words"]
    idx = {w: i + 1 for i, w in enumerate(words)}
    idx["<UNK>"] = 0
    with vk.Scratch() as d:
        vk.put(d + "/u", "".join(w + "\n" for w in words))
        vk.put(d + "/h", "".join(" ".join(str(idx[w]) for w in g) + " %d\n" % x for g, x in inp["table"]))
        if inp.get("blanks"):
            blanks_in_list(rng, d + "/u")
        extra = ["-Z", "-n", str(inp["n"])]
        if "-r" in o:
            vk.put(d + "/t.txt", vk.text_bytes(rng, inp["text"]))
            extra += ["-R", d + "/t.txt"]
        r, arpa = rerun(ctx, d, inp, o, extra, d + "/h")
    if isinstance(arpa, str):
        return arpa
    return recount_case(inp, r, arpa, o, words, inp["table"], [], "highest")


def split_opts(inp):
    """Divide a training run's options over the two runs: the pruning goes to the second."""
    o, o1, o2 = inp["opts"], [], []
    i = 0
    while i < len(o):
        val = o[i] in ("-p", "-O", "-H", "-f", "-d", "-D", "-E") and i + 1 < len(o) and not (
            o[i] == "-D" and not o[i + 1].replace(".", "").isdigit())
        piece = o[i:i + 2] if val else o[i:i + 1]
        if o[i] in SPLIT:
            o2 += piece
        elif o[i] in ("-A", "-3", "-s", "-L"):
            o1 += piece
            o2 += piece
        elif o[i] == "-H":
            o1 += piece
        else:
            o1 += piece
        i += len(piece)
    return o1, o2


def rand_recount(rng, grow=False):
    if grow:
        base = rand_varigram(rng)
        inp = {"text": base["text"], "opts": base["opts"], "n": base.get("n") or 0, "grow": True,
               "layout": base["layout"]}
        if "vocab" in base:
            inp["vocab"] = base["vocab"]
        if base.get("n"):
            inp["opts"] = inp["opts"] + ["-n", str(base["n"])]
        o2 = [f for f in ("-A", "-3", "-s", "-L") if f in inp["opts"]]
        m = rng.random()
        if m < 0.3:
            o2 += ["-p", rng.choice(["0.001", "0.05", "1"])]
        elif m < 0.5:
            o2 += ["-O", "0 1"]
        inp["opts2"] = o2
    else:
        m = rng.random()
        base = rand_decide(rng) if m < 0.3 else rand_prune(rng) if m < 0.7 else rand_train(rng)
        if rng.random() < 0.25:
            base = rand_select(rng, base)
        o1, o2 = split_opts(base)
        inp = dict(base, opts=o1, opts2=o2)
        if rng.random() < 0.25 and not inp.get("decide"):
            # prune while writing, read what is left
            inp["opts"] = o1 + [x for x in o2 if x not in ("-A", "-3", "-s", "-L")]
            inp["opts2"] = [x for x in o2 if x in ("-A", "-3", "-s", "-L")]
    if rng.random() < 0.5:
        inp["opts2"] = inp["opts2"] + ["-H", str(rng.choice([1, 3, 50, 1000]))]
    if rng.random() < 0.4:
        inp["shuffle"] = True
    if rng.random() < 0.3:
        inp["blanks"] = True
    if rng.random() < 0.3 and not grow:
        inp["saynorder"] = True
    if rng.random() < 0.5:
        inp["arpa"] = rng.choice(["arpa", "narpa"])
    return inp


def highest_of_text(rng):
    """The highest-order counts of a text, pruned with the text at hand."""
    while True:
        base = rand_decide(rng)
        t, n = flat(base["text"]), base["n"]
        if len(t) < n or base.get("vocab") is not None:
            continue
        words = [w for w in dict.fromkeys(t) if w != "<UNK>"]
        rng.shuffle(words)
        table = [[t[i:i + n], 1] for i in range(len(t) - n + 1)]
        rng.shuffle(table)
        o, old = [], base["opts"]
        for f in ("-A", "-3", "-s", "-L", "-N", "-D"):
            if f in old:
                o.append(f)
        for f in ("-O", "-p"):
            if f in old:
                o += [f, old[old.index(f) + 1]]
        if "-p" not in o:
            o += ["-p", rng.choice(["0.005", "0.02", "0.05", "0.15"])]
        if rng.random() < 0.6:
            o.append("-r")
        if rng.random() < 0.5:
            o += ["-H", str(rng.choice([1, 3, 50]))]
        # the text given with -R may be another one
        text = base["text"] + ([flat(base["text"])] if rng.random() < 0.3 else [])
        return {"n": n, "words": words, "table": table, "opts2": o, "layout": rng.randrange(1 << 30), "text": text, "decide": True}


def rand_highest(rng):
    if rng.random() < 0.3:
        return highest_of_text(rng)
    n = rng.choice([1, 2, 2, 3, 3, 4])
    nw = rng.choice([1, 2, 3, 5, 8])
    words = ["w%d" % i for i in range(nw)]
    if rng.random() < 0.3:
        words = rng.sample(NAMES, nw)
    pool = words + (["<UNK>"] if rng.random() < 0.3 else [])
    table = []
    for _ in range(rng.choice([1, 3, 8, 20, 40])):
        table.append([[rng.choice(pool) for _ in range(n)], rng.choice([1, 1, 1, 2, 2, 3, 4, 7, 30])])
    o = []
    for f, pr in (("-A", 0.3), ("-3", 0.5), ("-s", 0.3), ("-L", 0.3)):
        if rng.random() < pr:
            o.append(f)
    if rng.random() < 0.5:
        o += ["-H", str(rng.choice([1, 3, 50, 1000]))]
    m = rng.random()
    if m < 0.25 and n > 1:
        o += ["-O", " ".join(["0"] + [str(rng.choice([0, 1, 2])) for _ in range(n - 1)])]
        if rng.random() < 0.4:
            o.append("-D")
    elif m < 0.4:
        o += ["-p", rng.choice(["0.001", "0.05", "1"])]
    if rng.random() < 0.2:
        o.append("-N")
    inp = {"n": n, "words": words, "table": table, "opts2": o, "layout": rng.randrange(1 << 30)}
    if rng.random() < 0.4:
        inp["blanks"] = True
    if rng.random() < 0.5:
        inp["arpa"] = rng.choice(["arpa", "narpa"])
    return inp
