// Evaluation through the Perplexity class: the first line makes the object,
// every further line is one call.  Words and sentences in hex, "-" is empty.
#include "HashGram.hh"
#include "InterTreeGram.hh"
#include "PerplexityFuncs.hh"
#include "TreeGram.hh"
#include <iostream>
#include <sstream>
#include <stdio.h>
#include <string>
#include <stdlib.h>
#include <unistd.h>

static std::string unhex(const std::string &s) {
  std::string r;
  if (s == "-") return r;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r += (char)strtol(s.substr(i, 2).c_str(), 0, 16);
  return r;
}
static std::string name(const std::string &s) { return s == "-" ? "" : s; }

int main() {
  std::string l, how, lm, ccs, wb, mb, unk;
  int type, hash, skip;
  std::getline(std::cin, l);
  std::istringstream f(l);
  f >> how >> lm >> type >> ccs >> wb >> mb >> unk >> hash >> skip;
  ccs = name(ccs), wb = name(wb), mb = name(mb), unk = name(unk);
  Perplexity *p = NULL;
  if (how == "file")
    p = new Perplexity(lm, type, ccs, wb, mb, unk, hash, skip);
  else if (how == "bin")
    p = new Perplexity(lm.c_str());
  else if (how == "share") {
    std::shared_ptr<TreeGram> t(new TreeGram());
    if (unk.size()) t->set_oov(unk);
    io::Stream in(lm, "r");
    t->read(in.file, type);
    p = new Perplexity(t, ccs, wb, mb, unk, skip);
  } else {
    std::vector<std::string> n(1, lm);
    std::vector<float> c(1, 1.0f);
    std::shared_ptr<InterTreeGram> t(new InterTreeGram(n, c));
    p = new Perplexity(t, ccs, wb, mb, unk, skip);
  }
  p->set_unk_warn(false);
  while (std::getline(std::cin, l)) {
    std::istringstream f(l);
    std::string op, a;
    int n = 0;
    f >> op;
    if (op == "token" || op == "word" || op == "sent" || op == "file") f >> a;
    if (op == "token") {
      printf("%.9g", p->token_logprob(unhex(a).c_str()));
    } else if (op == "word") {
      printf("%.9g", p->word_logprob(unhex(a).c_str()));
    } else if (op == "both") {
      float w = 5;
      f >> a;
      float t = p->logprob(unhex(a).c_str(), w);
      printf("%.9g %.9g", t, w);
    } else if (op == "sent") {
      printf("%.9g", p->sentence_logprob(unhex(a).c_str()));
    } else if (op == "file") {
      std::string t = unhex(a);
      FILE *in = fmemopen((void *)t.data(), t.size(), "r");
      printf("%.9g", p->logprob_file(in, NULL));
      fclose(in);
    } else if (op == "clear") {
      p->clear_history();
    } else if (op == "init") {
      f >> n;
      p->set_init_hist(n);
    } else if (op == "reset") {
      p->reset_hitrates();
    } else if (op == "stats") {
      f >> n;
      printf("%d %d %d", p->processed_tokens(), p->processed_words(), p->get_num_tunks());
      for (int i = 0; i <= n; i++) printf(" %d", p->get_hitorder(i));
    }
    printf("\n");
    fflush(stdout);
  }
  fflush(stdout);
  _exit(0);
}
