"""Command lines and configuration files."""
import os, random, string
import framework, vk, models
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "option tables have distinct names and a help option, and the names hold no '=' but the one before a value's description"]}
MCTABLE = [["h", "help", False, False, ""], ["f", "fl", False, False, ""], ["i", "in=I", True, False, "7"],
           ["s", "", True, True, ""], ["", "x", False, False, ""]]


def hx(s):
    return "".join("%02x" % ord(c) for c in s) or "-"


def unhx(s):
    return "" if s == "-" else "".join(chr(int(s[i:i + 2], 16)) for i in range(0, len(s), 2))


def cnf(ctx, cases):
    """cases: lists of harness lines -> [(exit text, options, arguments, ints)]"""
    rc, out, err = vk.run([ctx.bin("cnf")], stdin="".join("".join(l + "\n" for l in c) + "end\n" for c in cases).encode(), timeout=300)
    res, cur = [], None
    for l in out.decode().split("\n"):
        f = l.split()
        if not f:
            continue
        if cur is None:
            cur = [l, [], [], []]
        elif f[0] == "end":
            res.append(cur)
            cur = None
        elif f[0] == "o":
            if f[3] != "1":
                raise vk.Obs("the option found by its short name is another one")
            cur[1].append([f[1] == "1", unhx(f[2])])
        elif f[0] == "a":
            cur[2].append(unhx(f[1]))
        elif f[0] == "i":
            cur[3].append(int(f[1]))
    if rc != 0 or len(res) != len(cases):
        raise vk.Obs("harness stopped: rc=%s" % rc)
    return res


def table_lines(table):
    # entry 0 is the help option every Config has
    return ["opt %s %s %s %s" % (hx(t[0]), hx(t[1]), hx(" ".join(["arg"] * t[2] + ["must"] * t[3])), hx(t[4]))
            for t in table[1:]]


def outcome(r):
    if r[0].startswith("signal"):
        raise vk.Obs("crash: " + r[0])
    rc = int(r[0].split()[1])
    return "refused" if rc else "ok" if r[1] else "help"


# -- replay: everything in one process ---------------------------------------
def observe_replay(ctx, inp):
    out = []
    rs = cnf(ctx, [table_lines(MCTABLE) + ["parse 1 1 " + " ".join(hx("".join(a)) for a in argv)] for argv in inp["argvs"]])
    for r in rs:
        o = outcome(r)
        out.append([o] + ([[list(a) for a in r[2]], [list(x[1]) for x in r[1]], [x[0] for x in r[1]]] if o == "ok" else []))
    return out


def observe_split(ctx, inp):
    rs = cnf(ctx, [["split " + hx("".join(t))] for t in inp["texts"]])
    return [[list(a) for a in r[2]] if r[0] == "exit 0" else r[0] for r in rs]


REPLAY = Kind("lines", None, observe_replay)
SPLITS = Kind("files", None, observe_split)


# -- random tables ------------------------------------------------------------
def observe(ctx, inp):
    lines = table_lines(inp["table"])
    for e in inp["steps"]:
        if e["kind"] == "file":
            lines.append("read %d %s" % (e["override"], hx(e["text"])))
        elif e["kind"] == "parse":
            lines.append("parse %d %d %s" % (e["num"], e["override"], " ".join(map(hx, e["argv"]))))
        else:
            lines.append("int %d" % (e["id"] - 1))
    r, = cnf(ctx, [lines])
    return {"table": [{"short": t[0], "long": list(t[1]), "arg": t[2], "must": t[3], "dflt": list(t[4])} for t in inp["table"]],
            "steps": [{"kind": e["kind"], "override": bool(e.get("override")), "num": e.get("num", 0), "id": e.get("id", 0),
                       "text": list(e.get("text", "")), "argv": [list(a) for a in e.get("argv", [])]} for e in inp["steps"]],
            "out": outcome(r), "args": [list(a) for a in r[2]], "val": [list(x[1]) for x in r[1]],
            "spec": [x[0] for x in r[1]], "ints": r[3]}


PARSE = Kind("parse", "Trace_Options", observe)
WORDS = ["a", "", "-", "x=y", "=", "--", "10", "-5", "0", "2147483647", "2147483648", "-2147483648", "-2147483649",
         "99999999999999999999", "1x", " 7", "+3", "7 ", "0x10", "file name", "\\", "'", '"', "a\tb", "--x", "-q", "a'b", 'c"d', "\\n"]


def quote(rng, w):
    m = rng.random()
    if m < 0.4 and "'" not in w:
        return "'" + w + "'"
    if m < 0.7 and '"' not in w:
        return '"' + w + '"'
    if w and m < 0.9:
        return "".join("\\" + c if c in " \t\n\\'\"" or rng.random() < 0.2 else c for c in w)
    return w          # as it is, whatever that means then


def rand_table(rng):
    chars = rng.sample(string.ascii_letters.replace("h", "") + "0123456789+#", rng.randint(1, 8))
    longs = rng.sample(["norder", "n", "no", "arpa", "counts", "x", "in", "inn", "a-b", "h_counts", "wb2", "c"], rng.randint(0, 8))
    table = [["h", "help", False, False, ""]]
    while chars or longs:
        s = chars.pop() if chars and rng.random() < 0.8 else ""
        l = longs.pop() if longs and (not s or rng.random() < 0.8) else ""
        if not s and not l:
            continue
        arg = rng.random() < 0.5
        if l and arg and rng.random() < 0.6:
            l += rng.choice(["=INT", "=FILE", "=a=b"])
        table.append([s, l, arg, rng.random() < 0.08, rng.choice(["", "7", "-1", "str", "1.5"]) if arg else ""])
    return table


def say(rng, table, wild=0.15):
    """A list of arguments that uses the table."""
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9])):
        m = rng.random()
        t = rng.choice(table if rng.random() < 0.1 else table[1:] or table)
        key = t[1].split("=")[0]
        if m < wild:
            out.append(rng.choice(WORDS + ["--nosuch", "-%", "--" + key + "x", "--" + key[:-1], "--" + key + "=", "--" + key + "=5"]))
        elif m < 0.3:
            out.append(rng.choice(["a", "b", "f.txt", "-"]))
        elif m < 0.5 and key:
            v = rng.choice(WORDS)
            if t[2] and rng.random() < 0.6:
                out.append("--" + key + "=" + v)
            else:
                out += ["--" + key] + ([v] if t[2] else [])
        else:
            g = [x for x in rng.sample(table, min(len(table), rng.randint(1, 4))) if x[0] and (x[0] != "h" or rng.random() < 0.1)]
            if g:
                out.append("-" + "".join(x[0] for x in g))
                out += [rng.choice(WORDS) for x in g if x[2]]
    return out


def rand_parse(rng):
    table = rand_table(rng)
    steps = []
    while True:
        m = rng.random()
        if m < 0.6 or not steps:
            argv = say(rng, table)
            steps.append({"kind": "parse", "argv": argv, "override": rng.random() < 0.7,
                          "num": rng.choice([0, 1, 2, sum(1 for a in argv if a in ("a", "b", "f.txt", "-"))])})
        else:
            ws = [quote(rng, w) if rng.random() < 0.5 else w for w in say(rng, table, 0.1)]
            text = "".join(w + rng.choice([" ", "\n", "\t", "  ", "\n\n"]) for w in ws)
            if rng.random() < 0.3:
                text = rng.choice([" ", "\n", "\t "]) + text
            if rng.random() < 0.4:
                text = text.rstrip()
            steps.append({"kind": "file", "text": text, "override": rng.random() < 0.5})
        if rng.random() < 0.6:
            break
    if rng.random() < 0.7:
        ids = [i + 1 for i, t in enumerate(table) if t[2]]
        steps += [{"kind": "int", "id": rng.choice(ids)} for _ in range(rng.randint(1, 3)) if ids]
    return {"table": table, "steps": steps}


# -- the programs --------------------------------------------------------------
def T(spec):
    """'h:help n:norder=INT' -> table (an '=' or a '!' means: takes a value)"""
    out = []
    for x in spec.split():
        s, l = x.split(":", 1)
        out.append([s, l.rstrip("!"), "=" in l or l.endswith("!"), False, ""])
    return out


PROGS = {
    "add_zeroprob_grams": T("h:help s:smallvocab"), "arpa2arpa": T("h:help t:tabs"), "arpa2bin": T("h:help"),
    "arpasize": T("h:help S:simple a:arpa"), "bin2arpa": T("h:help"),
    "check_model": T("h:help a:arpa"),
    "counts2kn": T("h:help o:opti=F n:norder=I a:arpa x:narpa 3:3nzer B:vocabin=F H:hashsize=I c:counts Z:h_counts f:nfirst=I d:ndrop=I "
                   "s:smallvocab p:prunetreshold! A:absolute C:clear_history r:prune_with_real_counts R:real_counts_data=F "
                   "W:write_counts=F U:write_vocab=F O:cutoffs=V D:discard_cutoffs N:discard_unks L:longint"),
    "perplexity": T("h:help a:arpa=F A:bin=F C:ccs=F W:wb=F X:mb=F u:unk=S U:unkwarn i:interpolate=F I:inter_coeff=F "
                    "t:init_hist=I f:freegram s:smallvocab S:probstream=F"),
    "simpleinterpolate2arpa": T("h:help"),
    "varigram_kn": T("h:help o:opti=F n:norder=I D:dscale=F E:dscale2=F a:arpa x:narpa 3:3nzer f:nfirst=I d:ndrop=I B:vocabin=F "
                     "H:hashsize=I s:smallvocab S:smallmem C:clear_history Z:dontaddzpg A:absolute W:write_counts=F U:write_vocab=F "
                     "O:cutoffs=V N:discard_unks L:longint V:numngramstarget=I F:forcedisc=F")}


def jtable(name):
    return [{"short": t[0], "long": list(t[1]), "arg": t[2], "must": t[3], "dflt": list(t[4])} for t in PROGS[name]]


def snapshot(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}


def setup(d):
    vk.put(d + "/text", "a b a c\nb a c c a b\n")
    vk.put(d + "/m.arpa", "\n\\data\\\nngram 1=4\nngram 2=2\n\n\\1-grams:\n-1 <UNK>\n-0.4 a -0.1\n-0.5 b -0.2\n-0.6 c\n\n"
           "\\2-grams:\n-0.3 a b\n-0.2 b a\n\n\\end\\\n")


def blank(**kw):
    c = {"kind": "", "table": [], "argv": [], "argv2": [], "rc": 0, "rc2": 0, "touched": False, "same": False}
    c.update(kw)
    return c


def observe_refuse(ctx, inp):
    with vk.Scratch() as d:
        setup(d)
        before = snapshot(d)
        rc, out, err = vk.run([ctx.bin(inp["prog"])] + inp["argv"], cwd=d, stdin=b"")
        return blank(kind="refuse", table=jtable(inp["prog"]), argv=[list(a) for a in inp["argv"]],
                     rc=rc, touched=snapshot(d) != before or (out != b"" and rc != 0))


def observe_spell(ctx, inp):
    res = []
    for argv in (inp["argv"], inp["argv2"]):
        with vk.Scratch() as d:
            setup(d)
            rc, out, err = vk.run([ctx.bin(inp["prog"])] + argv, cwd=d, stdin=b"")
            res.append((rc, out, snapshot(d)))
    return blank(kind="spell", table=jtable(inp["prog"]), argv=[list(a) for a in inp["argv"]],
                 argv2=[list(a) for a in inp["argv2"]], rc=res[0][0], rc2=res[1][0], same=res[0][1:] == res[1][1:])


REFUSE = Kind("refuse", "Trace_Programs", observe_refuse)
SPELL = Kind("spell", "Trace_Programs", observe_spell)


def refusals(rng):
    out = []
    for p, table in PROGS.items():
        free = [c for c in "!%jqyEz" if c not in [t[0] for t in table]]
        args = [t for t in table if t[2] and t[1]]
        flags = [t for t in table[1:] if not t[2]]
        L = [[], ["text"], ["text", "o", "p"], ["-" + rng.choice(free), "text", "o"], ["--nosuch", "text", "o"], ["text", "o", "-" + rng.choice(free)],
             ["--help"], ["text", "-h", "o"], ["--", "--help"], ["text", "o", "--hel"]]
        if args:
            t = rng.choice(args)
            L += [["text", "o", "-" + t[0]], ["text", "o", "--" + t[1].split("=")[0]], ["-" + t[0], "text", "o"]]
        if flags:
            t = rng.choice(flags)
            L += [["--" + t[1] + "=text", "o"], ["--" + t[1] + "=1", "text", "o"], ["-" + t[0] + rng.choice(free), "text", "o"]]
        out += [{"prog": p, "argv": a} for a in L]
    return out


def spell(rng, table, opts, args):
    """One way of writing the options (key, value) and arguments."""
    byl = {t[1].split("=")[0]: t for t in table}
    opts = list(opts)
    rng.shuffle(opts)
    groups, i = [], 0
    while i < len(opts):
        n = rng.randint(1, 3)
        part = opts[i:i + n]
        i += n
        if rng.random() < 0.5:
            groups.append(["-" + "".join(byl[k][0] for k, v in part)] + [v for k, v in part if v is not None])
        else:
            for k, v in part:
                if v is None:
                    groups.append(["--" + k])
                elif rng.random() < 0.5:
                    groups.append(["--" + k + "=" + v])
                else:
                    groups.append([rng.choice(["--" + k, "-" + byl[k][0]]), v])
    # arguments anywhere between, in their order
    cuts = sorted(rng.randint(0, len(groups)) for _ in args)
    out, j = [], 0
    for i in range(len(groups) + 1):
        while j < len(args) and cuts[j] == i:
            out.append(args[j])
            j += 1
        if i < len(groups):
            out += groups[i]
    if rng.random() < 0.3:
        # an end mark before the last argument, when nothing but arguments follow
        k = len(out)
        while k > 0 and out[k - 1] in args and (k < 2 or out[k - 2] in args):
            k -= 1
        if k < len(out) and all(x in args for x in out[k:]):
            o2 = out[:k] + ["--"] + out[k:]
            out = o2 if k == 0 or out[k - 1] in args or not out[k - 1].startswith("-") or "=" in out[k - 1] else out
    return out


def rand_spell(rng):
    p = rng.choice(["counts2kn", "varigram_kn", "perplexity", "arpa2arpa", "arpasize"])
    if p == "counts2kn":
        opts = [("norder", rng.choice("123"))]
        for k, v, pr in (("arpa", None, .7), ("3nzer", None, .5), ("hashsize", "10", .5), ("absolute", None, .3), ("cutoffs", "0 0 1", .4),
                         ("write_counts", "c", .5), ("write_vocab", "u", .5), ("longint", None, .3), ("nfirst", "2", .3), ("smallvocab", None, .3)):
            if rng.random() < pr:
                opts.append((k, v))
        args = ["text", "o"]
    elif p == "varigram_kn":
        opts = [("norder", rng.choice("23"))]
        for k, v, pr in (("arpa", None, .7), ("3nzer", None, .5), ("dscale", "0.01", .7), ("dscale2", "0.02", .3), ("ndrop", "1", .3),
                         ("write_counts", "c", .5), ("write_vocab", "u", .5), ("smallmem", None, .3), ("forcedisc", "0.5", .3)):
            if rng.random() < pr:
                opts.append((k, v))
        args = ["text", "o"]
    elif p == "perplexity":
        opts = [("arpa", "m.arpa")]
        for k, v, pr in (("unk", "<UNK>", .4), ("init_hist", "1", .4), ("probstream", "s", .5), ("freegram", None, .4), ("interpolate", "m.arpa", .4)):
            if rng.random() < pr:
                opts.append((k, v))
        args = ["text", rng.choice(["-", "o"])]
    elif p == "arpa2arpa":
        opts, args = [("tabs", None)] if rng.random() < 0.7 else [], ["m.arpa", "o"]
    else:
        opts, args = [("arpa", None)] + ([("simple", None)] if rng.random() < 0.5 else []), ["m.arpa", "-"]
    t = PROGS[p]
    plain = []
    for k, v in opts:
        plain += ["--" + k] + ([v] if v is not None else [])
    return {"prog": p, "argv": plain + args, "argv2": spell(rng, t, opts, args)}


def kinds(ctx):
    for k in (REPLAY, SPLITS, PARSE, REFUSE, SPELL):
        ctx.kind(k)


def run(ctx):
    ctx.model("MC_Options", None if ctx.quick else "MC_Options_deep", timeout=3000)
    ctx.model("MC_Fields", None if ctx.quick else "MC_Fields_deep", timeout=3000)
    gen = ctx.generate("MC_Options", "Gen_Options")
    items = []
    for i in range(0, len(gen), 50):
        g = gen[i:i + 50]
        items.append(({"argvs": [x["argv"] for x in g]},
                      [[x["status"] if x["status"] in ("ok", "help") else "refused"]
                       + ([x["args"], x["val"], x["spec"]] if x["status"] == "ok" else []) for x in g]))
    ctx.expect(REPLAY, items, "every command line of up to three arguments (in fifties)")
    gen = ctx.generate("MC_Fields", "Gen_Fields")
    items = [({"texts": [x["t"] for x in gen[i:i + 200]]}, [x["fields"] for x in gen[i:i + 200]]) for i in range(0, len(gen), 200)]
    ctx.expect(SPLITS, items, "every file of up to five characters (in two hundreds)")
    ctx.validate(PARSE, [rand_parse(ctx.rng) for _ in range(ctx.n(1500, 20000))], "random tables and lines")
    rs = [x for _ in range(ctx.n(1, 5)) for x in refusals(ctx.rng)]
    ctx.validate(REFUSE, rs, "the programs' refusals")
    ctx.validate(SPELL, [rand_spell(ctx.rng) for _ in range(ctx.n(120, 1500))], "spellings of command lines")
