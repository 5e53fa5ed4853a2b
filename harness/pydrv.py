"""The same through the Python module (first argument: where it is)."""
import json, sys
sys.path.insert(0, sys.argv[1])
import varikn


def evaluate():
    how, lm, type_, ccs, wb, mb, unk, hash_, skip = sys.stdin.readline().split()
    n = lambda s: "" if s == "-" else s
    a = (n(ccs), n(wb), n(mb), n(unk))
    if how == "file":
        p = varikn.Perplexity(lm, int(type_), *a, int(hash_), skip != "0")
    elif how == "bin":
        p = varikn.Perplexity(lm)
    else:
        p = varikn.Perplexity(varikn.InterTreeGram([lm], [1.0]), *a, skip != "0")
    p.set_unk_warn(False)
    un = lambda s: "" if s == "-" else bytes.fromhex(s).decode("utf-8")
    for l in sys.stdin:
        f = l.split()
        out = ""
        if f[0] == "token":
            out = "%.9g" % p.token_logprob(un(f[1]))
        elif f[0] == "word":
            out = "%.9g" % p.word_logprob(un(f[1]))
        elif f[0] == "sent":
            out = "%.9g" % p.sentence_logprob(un(f[1]))
        elif f[0] == "clear":
            p.clear_history()
        elif f[0] == "init":
            p.set_init_hist(int(f[1]))
        elif f[0] == "reset":
            p.reset_hitrates()
        elif f[0] == "stats":
            out = " ".join(map(str, [p.processed_tokens(), p.processed_words(), p.get_num_tunks()] +
                               [p.get_hitorder(i) for i in range(int(f[1]) + 1)]))
        print(out, flush=True)


def train():
    o = json.loads(sys.stdin.read())
    vg = varikn.VarigramTrainer(o["three"], o["absolute"])
    if o["D"] > 0:
        vg.set_datacost_scale(o["D"])
    if o["E"] > 0:
        vg.set_datacost_scale2(o["E"])
    if o["V"] > 0:
        vg.set_ngram_prune_target(o["V"])
    if o["n"]:
        vg.set_max_order(o["n"])
    vg.initialize(o["text"], o["H"], o["ndrop"], o["nfirst"], o["dev"], "<s>" if o["clear"] else "", o["S"], o["vocab"])
    if o["cutoffs"]:
        vg.set_cutoffs(o["cutoffs"])
    vg.set_discard_unks(o["N"])
    vg.grow(1)
    if o["F"] >= 0:
        vg.set_all_discounts(o["F"])
    vg.write_file(o["out"], o["arpa"])


if sys.argv[2] == "train":
    train()
else:
    evaluate()
