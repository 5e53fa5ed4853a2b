"""File names decide how bytes travel, and nothing else."""
import bz2, gzip, hashlib, os, random, shutil, threading
import framework, vk
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "commands in pipes end well exactly if their work is done; /dev/full stands for a full disk"]}

q = lambda s: "'" + s.replace("'", "'\\''") + "'"
SUFFIX = {"gz": ".gz", "bz2": ".bz2"}
PACK = {"gz": gzip.compress, "bz2": bz2.compress}
UNPACK = {"gz": gzip.decompress, "bz2": bz2.decompress}
STYLES = ["f", "a b", "it's", 'say "x"', "$HOME", "x&y", "back\\slash", "(é)", "a*b?", "#1", "-f", "~", "a>b", "f.gz.txt", "!x", "gz", "\tq"]
# the slots of Transport's programs: <in> and >out, in the place of names
PROGS = {
    "counts2kn": "counts2kn -a -n 3 -3 -o <dev -B <vocab -W >counts -U >vocabout <text >model",
    "counts2kn-s": "counts2kn -s -n 2 -O 0_1 <text >model",
    "counts2kn-c": "counts2kn -a -n 3 -c -B <vocab <text >model",
    "counts2kn-Z": "counts2kn -n 3 -Z -B <vocab <text >model",
    "counts2kn-r": "counts2kn -a -r -n 3 -p 0.3 <text >model",
    "varigram_kn": "varigram_kn -a -n 3 -3 -D 0.1 -E 0.2 -o <dev -B <vocab -W >counts -U >vocabout <text >model",
    "varigram_kn-S": "varigram_kn -S -n 2 -D 0.1 <text >model",
    "perplexity-a": "perplexity -a <model -t 1 -S >stream <text >out",
    "perplexity-A": "perplexity -A <model -C <ccs -W <wb <text >out",
    "perplexity-f": "perplexity -f -a <model -X <mb <text >out",
    "perplexity-i": "perplexity -a <model -i <inter -I 0.3 <text >out",
    "perplexity-fi": "perplexity -f -a <model -i <inter <text >out",
    "arpa2bin": "arpa2bin <model >out",
    "bin2arpa": "bin2arpa <model >out",
    "arpa2arpa": "arpa2arpa <model >out",
    "add_zeroprob_grams": "add_zeroprob_grams <model >out",
    "arpasize": "arpasize -a <model >out",
    "arpasize-S": "arpasize -S -a <model >out",
    "check_model": "check_model -a <model <text",
    "simpleinterpolate2arpa": "simpleinterpolate2arpa <model,0.25;<inter,0.75 >out",
}
worlds, baselines, lock = {}, {}, threading.RLock()


def text(rng, n, words):
    return "".join("<s> " + " ".join(rng.choice(words[:1 + rng.randrange(len(words))]) for _ in range(rng.randint(1, 9))) + " </s>\n"
                   for _ in range(n))


def world(ctx, w):
    """The contents of the slots: [seed, sentences] -> {program: {slot: bytes}}"""
    with lock:
        key = tuple(w)
        if key not in worlds:
            rng = random.Random(w[0])
            words = ["a", "b", "c", "d_", "é", "_f", "gg", "w"] + ["w%d" % i for i in range(w[1] // 8)]
            t, dev = text(rng, w[1], words).encode(), text(rng, 20, words).encode()
            voc = "".join(x + "\n" for x in words + ["<s>", "</s>"]).encode()

            def make(*args):
                with vk.Scratch() as d:
                    vk.put(d + "/t", t)
                    vk.put(d + "/v", voc)
                    vk.put(d + "/i", r.get("arpa", b""))
                    rc, out, err = vk.run([ctx.bin(args[0])] + list(args[1:]), cwd=d)
                    if rc != 0:
                        raise vk.Obs("%s: rc=%s %s" % (args[0], rc, err[-200:]))
                    return open(d + "/m", "rb").read(), open(d + "/c", "rb").read() if os.path.exists(d + "/c") else b""
            r = {}
            r["arpa"], r["counts"] = make("counts2kn", "-a", "-n", "3", "-B", "v", "-W", "c", "t", "m")
            r["inter"], _ = make("counts2kn", "-a", "-n", "1", "-B", "v", "t", "m")
            r["bin"], _ = make("arpa2bin", "i", "m")
            p = {n: {"text": t, "dev": dev, "vocab": voc, "model": r["arpa"], "inter": r["inter"], "ccs": b"a\nb\n",
                     "wb": b"w\n", "mb": b"_\n"} for n in PROGS}
            p["counts2kn-c"]["text"] = r["counts"]
            p["counts2kn-Z"]["text"] = b"".join(b" ".join(f[1:-2]) + b" " + f[-1] + b"\n" for f in
                                               (l.split() for l in r["counts"].split(b"\n")) if len(f) == 6 and f[4] == b"]")
            for n in ("perplexity-A", "bin2arpa"):
                p[n]["model"] = r["bin"]
            worlds[key] = p
        return worlds[key]


def perform(ctx, prog, contents, dev, style):
    """dev: {slot: [form, fault]} -> (rc, {slot: content or None}, rest of the standard output)"""
    with vk.Scratch() as d:
        argv, outs, std, full = [], {}, b"", False
        for i, a in enumerate(PROGS[prog].split()):
            if i == 0:
                argv.append(ctx.bin(a))
                continue
            res = []
            for part in a.split(";"):
                if part[0] not in "<>":
                    res.append(part.replace("_", " "))
                    continue
                slot, _, tail = part[1:].partition(",")
                form, fault = dev.get(slot, ["plain", "none"])
                name = slot + style + SUFFIX.get(form, "")
                if part[0] == "<":
                    data = contents[slot]
                    if form in PACK and fault != "raw":
                        data = PACK[form](data)
                    if fault == "cut":
                        data = data[:len(data) * 2 // 3]
                    if fault == "directory":
                        os.mkdir(os.path.join(d, name))
                    elif fault != "missing" and form != "std":
                        vk.put(os.path.join(d, name), data)
                    if form == "inpipe":
                        name = ("cat " if fault != "nocommand" else "no-such-command < ") + q("./" + name) + " |"
                    elif form == "std":
                        std, name = data, "-"
                else:
                    outs[slot] = (os.path.join(d, name), form)
                    if fault == "nodir":
                        name = "no such dir/" + name
                    elif form == "outpipe":
                        name = "| cat > " + ("/dev/full" if fault == "full" else q("./" + name))
                    elif form == "std":
                        full, name = fault == "full", "-"
                    elif fault == "full":
                        name = "/dev/full"
                res.append(name + ("," + tail if tail else ""))
            argv.append(";".join(res))
        if full:
            argv = ["/bin/sh", "-c", 'exec "$0" "$@" > /dev/full'] + argv
        rc, out, err = vk.run(argv, cwd=d, stdin=std, timeout=60)
        got = {}
        for slot, (path, form) in outs.items():
            if form == "std":
                got[slot], out = out, b""
            elif not os.path.exists(path):
                got[slot] = None
            else:
                got[slot] = open(path, "rb").read()
                if form in UNPACK:
                    try:
                        got[slot] = UNPACK[form](got[slot])
                    except Exception as e:
                        got[slot] = None
        return rc, got, out


def observe(ctx, inp):
    contents = world(ctx, inp["world"])[inp["prog"]]
    key = (inp["prog"],) + tuple(inp["world"])
    with lock:
        base = baselines.get(key)
    if base is None:
        base = perform(ctx, inp["prog"], contents, {}, "f")
        if base[0] != 0 or any(v in (None, b"") for v in base[1].values()):
            raise vk.Obs("the plain run fails: rc=%s" % base[0])
        with lock:
            baselines[key] = base
    rc, got, out = perform(ctx, inp["prog"], contents, dict(inp["dev"]), inp["style"])
    if rc == "timeout" or rc in (-11, -7, -8, -4):
        return "the program ended in %s" % rc
    if rc != 0:
        return ["error"]
    if (got, out) != base[1:]:
        return ["other", {s: "missing" if got[s] is None else "same" if got[s] == base[1][s] else "other" for s in got}]
    return ["same"]


RUN = Kind("run", None, observe)



# -- one stream, many operations ----------------------------------------------
PATHS = ["p", "q", "r s", "n'm", "x.gz", "y.bz2", "a z.gz", "nodir/f", "nodir/f.gz"]
SEEK = ["linear", "reopenable", "seekable"]


def form(name):
    return "gz" if name.endswith(".gz") else "bz2" if name.endswith(".bz2") else "plain"


def base(name):
    return "nodir" if name.startswith("nodir") else name


def letters(data, n):
    """Bytes as letters of n bytes each, or what they are packed with."""
    if data[:2] == b"\x1f\x8b":
        return "gz", letters(gzip.decompress(data), n)[1]
    if data[:3] == b"BZh":
        return "bz2", letters(bz2.decompress(data), n)[1]
    out = [chr(data[i]) for i in range(0, len(data), n)]
    if "".join(c * n for c in out).encode() != data:
        raise vk.Obs("bytes nobody has written")
    return "none", out


def observe_stream(ctx, inp):
    n = inp["block"]
    with vk.Scratch() as d:
        wd = os.path.join(d, "w")
        os.mkdir(wd)
        std = b""
        for name, enc, data in inp["before"]:
            x = "".join(c * n for c in data).encode()
            x = PACK[enc](x) if enc in PACK else x
            if name == "stdin":
                std = x
            else:
                vk.put(os.path.join(wd, name), x)
        ops, lines = [], []
        for o in inp["ops"]:
            if o[0] in ("open", "make"):
                name, how, mode, seek = o[1:]
                f = how if how else form(name)
                path = {"inpipe": "cat " + q(name) + " 2>/dev/null |", "outpipe": "| cat > " + q(name), "std": "-"}.get(f, name)
                bs = ("stdin" if mode in ("r", "rb") else "stdout") if f == "std" else base(name)
                ops.append({"op": o[0], "name": {"form": f, "base": bs}, "mode": mode, "seek": SEEK[seek], "c": ""})
                lines.append("%s %s %s %d" % (o[0], path.encode().hex(), mode, seek))
            else:
                ops.append({"op": o[0], "name": {"form": "", "base": ""}, "mode": "", "seek": "", "c": o[1] if len(o) > 1 else ""})
                lines.append("write %s %d" % (o[1], n) if o[0] == "write" else o[0])
        vk.put(d + "/ops", "".join(l + "\n" for l in lines))
        rc, out, err = vk.run([ctx.bin("ios"), d + "/ops", d + "/ans"], cwd=wd, stdin=std)
        if rc not in (0, 1):
            raise vk.Obs("the process ended with %s" % rc)
        ans = open(d + "/ans").read().split("\n")[:-1]
        done = len(ans) - (1 if ans and ans[-1] == "end" else 0)
        res = []
        for o, a in zip(ops, ans[:done]):
            if o["op"] == "read":
                if a == "none":
                    res.append([a])
                    continue
                if not a.endswith("."):
                    raise vk.Obs("reading ended early")
                enc, l = letters(bytes.fromhex(a[:-1]), n)
                res.append([l if enc == "none" else [enc, l]])
            else:
                res.append([a])
        after = [[f] + list(letters(open(os.path.join(wd, f), "rb").read(), n)) for f in sorted(os.listdir(wd))]
        if out:
            after.append(["stdout"] + list(letters(out, n)))
        return {"before": inp["before"], "ops": ops, "out": res, "done": done, "rc": rc, "after": after}


STREAM = Kind("stream", "Trace_Stream", observe_stream)


def rand_stream(rng):
    before = []
    for nm in rng.sample(PATHS[:7], rng.randint(0, 5)):
        enc = {"gz": "gz", "bz2": "bz2"}.get(form(nm), "none")
        if rng.random() < 0.12:
            enc = rng.choice(["none", "gz"])
        before.append([nm, enc, [rng.choice("abc") for _ in range(rng.randint(1, 4))]])
    ops, state, wrote = [], None, set()
    for _ in range(rng.randint(1, 9)):
        m = rng.random()
        if state and m < 0.55:
            if state == "r":
                ops.append(["read"])
            else:
                ops.append(["write", rng.choice("abc")])
        elif m < 0.65:
            ops.append(["close"])
            state = None
        else:
            how = rng.choice(["", "", "", "", "inpipe", "outpipe", "std"])
            nm = rng.choice(PATHS[:7] if how else PATHS)
            mode = rng.choice(["r", "r", "w", "w", "rb", "wb"])
            if not how and form(nm) == "plain" and rng.random() < 0.3:
                mode = rng.choice(["r+", "w+", "a"])
                if mode == "a" and any(b[0] == nm and b[1] != "none" for b in before):
                    mode = "w+"
            if how == "inpipe":
                mode = rng.choice(["r", "r", "rb"])
            if how == "outpipe":
                nm, mode = rng.choice(PATHS[:4]), rng.choice(["w", "w", "wb"])
            ops.append([rng.choice(["open", "open", "make"]), nm, how, mode, rng.choice([0, 0, 0, 1, 1, 2])])
            state = "r" if mode[0] == "r" else "w"
    before.append(["stdin", "none", [rng.choice("abc") for _ in range(rng.randint(0, 3))]])
    return {"before": before, "ops": ops, "block": rng.choice([1, 3000, 70000])}


def kinds(ctx):
    ctx.kind(RUN)
    ctx.kind(STREAM)


def item(rng, c, worlds):
    dev = sorted([s, v] for s, v in c["dev"].items()) if c["dev"] else []
    return ({"prog": c["prog"], "dev": dev, "style": rng.choice(STYLES), "world": rng.choice(worlds)}, [c["outcome"]])


def run(ctx):
    ctx.model("MC_Transport")
    ws = [[ctx.seed * 10 + 1, 30], [ctx.seed * 10 + 2, 4000]]
    if not ctx.quick:
        ws += [[ctx.seed * 10 + i, random.Random(i).choice([1, 5, 300, 20000])] for i in range(3, 9)]
    gen = ctx.generate("MC_Transport", "Gen_Transport")
    ctx.validate(STREAM, [rand_stream(ctx.rng) for _ in range(ctx.n(600, 10000))], "operations on streams")
    k = ctx.n(1, 5)
    ctx.expect(RUN, [item(ctx.rng, c, ws) for c in gen for _ in range(k)], "every name form and fault in every slot")
    gen = ctx.generate("MC_Transport", "Gen_Transport_deep")
    ctx.expect(RUN, [item(ctx.rng, c, ws) for c in ctx.rng.sample(gen, min(len(gen), ctx.n(300, 6000)))], "pairs of them")
