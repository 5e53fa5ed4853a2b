"""Broken count files are refused, whole ones are taken as they are."""
import os, re
import framework, vk, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "refused: the program ends with an error (an uncaught exception counts), not by a crash, a hang or more than 4 GB of memory",
    "numbers in unusual notation, carriage returns, NUL bytes and tables no training writes may be taken or refused",
    "what was taken is observed through the tables counts2kn -W writes again"]}


def tables(path, three, nwords):
    """The tables of a count file, words by their numbers."""
    cnt, tot, mode = [], [], None
    with open(path, encoding="latin-1") as f:
        for l in f.read().split("\n")[1:]:
            m = re.match(r"\\(\d+)-gram (counts|backoffs)$", l)
            if m:
                mode = m.group(2)
                continue
            if not l.strip():
                continue
            m = re.match(r"\[((?: \d+)*) \] (.*)$", l)
            if not m:
                raise vk.Obs("the counts written again are not understood: %r" % l)
            g = [int(x) for x in m.group(1).split()]
            v = [int(x) for x in m.group(2).split()]
            (cnt if mode == "counts" else tot).append([g, v[0] if mode == "counts" else v])
    key = lambda x: (len(x[0]), x[0])
    return sorted(cnt, key=key), sorted(tot, key=key)


def outcome(ctx, inp):
    """inp: text (bytes), high, values, words, opts -> what, cnt, tot"""
    opts = list(inp.get("opts", []))
    if re.search(rb"[0-9]{10}", bytes(inp["text"])):
        # what is too large for an int need not be for a long
        opts = [x for x in opts if x != "-L"]
    with vk.Scratch() as d:
        vk.put(d + "/c", bytes(inp["text"]))
        vk.put(d + "/v", "".join("w%d\n" % i for i in range(1, inp["words"])))
        cmd = [ctx.bin("counts2kn"), "-B", d + "/v", "-a", "-W", d + "/w"] + opts
        cmd += ["-Z", "-n", str(inp["high"])] if inp["high"] else ["-c"]
        if inp["values"] == 5:
            cmd.append("-3")
        rc, out, err = vk.run(["/bin/sh", "-c", 'ulimit -v 4000000; ulimit -c 0; exec "$0" "$@"'] + cmd + [d + "/c", d + "/m"], cwd=d, timeout=30)
        if rc in ("timeout", -11, -7, -8, -4, -9):
            raise vk.Obs("counts2kn ended in %s" % rc)
        if b"bad_alloc" in err:
            raise vk.Obs("counts2kn used up its memory")
        r = {"what": "ok" if rc == 0 else "refused", "cnt": [], "tot": []}
        if rc == 0:
            if os.path.getsize(d + "/m") == 0:
                raise vk.Obs("success without a model")
            r["cnt"], r["tot"] = tables(d + "/w", inp["values"] == 5, inp["words"])
        return r


def observe_replay(ctx, inp):
    r = outcome(ctx, inp)
    v = inp["v"]
    if v == "free":
        return {"v": v, "cnt": [], "tot": []}
    return {"v": {"ok": "accept", "refused": "refuse"}[r["what"]],
            "cnt": r["cnt"] if not inp["high"] else [], "tot": r["tot"] if not inp["high"] else []}


REPLAY = Kind("replay", None, observe_replay)


def observe_file(ctx, inp):
    big = lambda q: [[g, v if isinstance(v, list) else min(v, 2 ** 31 - 1)] for g, v in q]
    r = outcome(ctx, inp)
    return {"text": inp["text"], "high": inp["high"], "values": inp["values"], "words": inp["words"], "whole": inp["whole"],
            "what": r["what"], "cnt": big(r["cnt"]), "tot": [[g, [min(x, 2 ** 31 - 1) for x in v]] for g, v in r["tot"]]}


FILE = Kind("file", "Trace_CountText", observe_file)


# -- larger files, damaged at random ------------------------------------------
LETTERS = b"0123456789 [] \n-\\ax."


def damage(rng, t, words):
    ls = t.split(b"\n")
    r = rng.randrange(11)
    i = rng.randrange(len(t)) if t else 0
    full = [n for n in range(len(ls)) if ls[n].strip()]
    j = rng.choice(full) if full else 0
    if r == 0:
        return t[:i]
    if r == 1:
        return t[:i] + t[i + rng.choice([1, 1, 2, 5, 20]):]
    if r == 2:
        return t[:i] + bytes([rng.choice([rng.randrange(256), rng.choice(LETTERS)])]) + t[i + 1:]
    if r == 3:
        return t[:i] + bytes(rng.choice(LETTERS) for _ in range(rng.choice([1, 1, 3]))) + t[i:]
    if r == 4:
        del ls[j]
    elif r == 5:
        ls.insert(rng.randrange(len(ls)), ls[j])
    elif r == 6 and full:
        k = rng.choice(full)
        ls[j], ls[k] = ls[k], ls[j]
    elif r in (7, 8):
        f = ls[j].split(b" ")
        k = rng.randrange(len(f))
        x = rng.choice([b"0", b"1", b"5", b"x", b"-1", b"[", b"]", b"1.5", b"%d" % words, b"%d" % (words - 1), b"65536", b"99999",
                        b"4294967296", b"2147483648", b"9" * 25, b"-0", b"1x", b"007"])
        if r == 7:
            f[k] = x
        elif rng.random() < 0.5:
            del f[k]
        else:
            f.insert(k, x)
        ls[j] = b" ".join(f)
    elif r == 9:
        c = [n for n in range(len(ls)) if ls[n].startswith(b"\\") and not ls[n].startswith(b"\\v")]
        if c:
            n = rng.choice(c)
            x = re.match(rb"\\(\d+)-gram (\w+)", ls[n])
            if x:
                o, k = int(x.group(1)), x.group(2)
                y = b"counts" if k == b"backoffs" else b"backoffs"
                ls[n] = rng.choice([b"\\%d-gram %s" % (o + 1, k), b"\\%d-gram %s" % (o - 1, k), b"\\%d-gram %s" % (o, y), b"\\%d-gram" % o,
                                    b"\\%d-gram counts-" % o, b"\\-gram counts", b"\\", b"\\x-gram " + k, b"\\%d-Gram %s" % (o, k), b"\\2000000000-gram counts"])
    else:
        # a whole section elsewhere, or not at all
        s = [n for n in range(len(ls)) if ls[n].startswith(b"\\")] + [len(ls)]
        if len(s) > 2:
            k = rng.randrange(len(s) - 1)
            cut = ls[s[k]:s[k + 1]]
            del ls[s[k]:s[k + 1]]
            if rng.random() < 0.6:
                at = rng.choice(s[:k + 1])
                ls[at:at] = cut
    return b"\n".join(ls)


def train_file(ctx, rng):
    """A count file of a training: its text, values, words, options."""
    grow = rng.random() < 0.3
    while True:
        inp = train.rand_varigram(rng) if grow else train.rand_train(rng)
        o = [x for x in inp["opts"]]
        with vk.Scratch() as d:
            vk.put(d + "/t", vk.text_bytes(rng, inp["text"]))
            cmd = [ctx.bin("varigram_kn" if grow else "counts2kn")] + o + (["-n", str(inp["n"])] if inp.get("n") else [])
            if inp.get("vocab") is not None:
                vk.put(d + "/voc", "".join(w + "\n" for w in inp["vocab"]))
                cmd += ["-B", d + "/voc"]
            if rng.random() < 0.25 and not grow:
                cmd += ["-O", "0 1"]
            rc, out, err = vk.run(cmd + ["-W", d + "/c", "-U", d + "/u", d + "/t", d + "/m"], cwd=d)
            if rc != 0:
                continue
            words = len(vk.read_vocab(d + "/u")) + 1
            t = open(d + "/c", "rb").read()
        if len(t) < 1500:
            break
    return {"text": t, "high": 0, "values": 5 if "-3" in o else 3, "words": words,
            "opts": [x for x in ("-A", "-s", "-L") if x in o]}


def high_file(rng):
    n, words = rng.randint(1, 3), rng.randint(2, 6)
    t = "".join(rng.choice(["", "", "", " ", "\t", "\n"]) + " ".join(str(rng.randrange(words)) for _ in range(n)) + rng.choice([" ", "\t", "  "])
                + str(rng.choice([1, 1, 2, 3, 9, 100])) + rng.choice(["", "", " "]) + "\n" for _ in range(rng.randint(1, 12)))
    return {"text": t.encode(), "high": n, "values": rng.choice([3, 5]), "words": words,
            "opts": [x for x in ("-A", "-s", "-L") if rng.random() < 0.3]}


def rand_file(ctx, rng):
    f = high_file(rng) if rng.random() < 0.3 else train_file(ctx, rng)
    k = rng.choice([0, 1, 1, 1, 1, 2, 3])
    f["whole"] = k == 0
    for _ in range(k):
        f["text"] = damage(rng, f["text"], f["words"])
    f["text"] = list(f["text"])
    return f


def kinds(ctx):
    ctx.kind(REPLAY)
    ctx.kind(FILE)


def run(ctx):
    ctx.model("MC_CountText", ctx.n("MC_CountText", "MC_CountText_deep"), heap="8g")
    cases = ctx.generate("MC_CountText", ctx.n("Gen_CountText", "Gen_CountText_deep"), heap="8g")
    cases.sort(key=lambda c: (c["base"], c["edit"]))
    full = [c for c in cases if c["edit"][0] not in ("delete", "insert", "replace", "again", "value")]
    rest = [c for c in cases if c["edit"][0] in ("delete", "insert", "replace", "again", "value")]
    if ctx.quick:
        full = ctx.rng.sample(full, min(len(full), 1500))
        rest = ctx.rng.sample(rest, min(len(rest), 1500))
    items = []
    for c in full + rest:
        high = c["base"] == "high"
        inp = {"text": c["text"], "high": 2 if high else 0, "values": 5 if c["base"] == "two3" else 3, "words": 3, "v": c["v"],
               "opts": [x for x in ("-s", "-L") if ctx.rng.random() < 0.2]}
        items.append((inp, {"v": c["v"], "cnt": [[list(g), x] for g, x in c["cnt"]], "tot": [[list(g), x] for g, x in c["tot"]]}))
    ctx.expect(REPLAY, items, what="count files with one edit")
    ctx.validate(FILE, [rand_file(ctx, ctx.rng) for _ in range(ctx.n(400, 8000))], what="count files of trainings with random damage")
    return "one edit of small count files, random damage of those trainings have written"
