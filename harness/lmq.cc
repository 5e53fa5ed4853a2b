// Loads models in every representation and answers queries from stdin.
#include "HashGram.hh"
#include "InterTreeGram.hh"
#include "PerplexityFuncs.hh"
#include "TreeGram.hh"
#include "TreeGramArpaReader.hh"
#include "io.hh"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using namespace std;

int main() {
  string line;
  shared_ptr<NGram> lm;
  TreeGram *tree = NULL;
  InterTreeGram *inter = NULL;
  shared_ptr<Perplexity> ppl;
  while (getline(cin, line)) {
    istringstream is(line);
    string cmd;
    if (!(is >> cmd))
      continue;
    vector<string> a;
    string w;
    while (is >> w)
      a.push_back(w);
    if (cmd == "tree" || cmd == "bin" || cmd == "treeadd" || cmd == "hash" || cmd == "hash16") {
      tree = NULL;
      inter = NULL;
      if (cmd == "hash")
        lm.reset(new HashGram_t<int>());
      else if (cmd == "hash16")
        lm.reset(new HashGram_t<unsigned short>());
      else
        lm.reset(tree = new TreeGram());
      io::Stream in(a[0], "r");
      if (cmd == "treeadd") {
        TreeGramArpaReader r;
        r.read(in.file, tree, true);
      } else
        lm->read(in.file, cmd == "bin");
      printf("loaded %d %d %d\n", lm->order(), (int)lm->get_type(), lm->num_words());
    } else if (cmd == "inter") {
      vector<string> names;
      vector<float> c;
      for (size_t i = 0; i + 1 < a.size(); i += 2) {
        names.push_back(a[i]);
        c.push_back(atof(a[i + 1].c_str()));
      }
      tree = NULL;
      lm.reset(inter = new InterTreeGram(names, c));
      printf("loaded %d %d %d\n", lm->order(), (int)lm->get_type(), lm->num_words());
    } else if (cmd == "vocab") {
      for (int i = 0; i < lm->num_words(); i++)
        printf("%s%s", i ? " " : "", lm->word(i).c_str());
      printf("\n");
    } else if (cmd == "q") {
      NGram::Gram g;
      for (auto &x : a)
        g.push_back(lm->word_index(x));
      float lp = lm->log_prob(g);
      printf("%.17g %d\n", lp, lm->last_order());
    } else if (cmd == "v") {
      vector<int> g;
      for (auto &x : a)
        g.push_back(lm->word_index(x));
      float lp = lm->log_prob(g);
      printf("%.17g %d\n", lp, lm->last_order());
    } else if (cmd == "u") {
      vector<unsigned short> g;
      for (auto &x : a)
        g.push_back(lm->word_index(x));
      float lp = lm->log_prob(g);
      printf("%.17g %d\n", lp, lm->last_order());
    } else if (cmd == "b" || cmd == "t") {
      size_t h = cmd == "b" ? 1 : 2;
      vector<int> next;
      for (size_t i = h; i < a.size(); i++)
        next.push_back(lm->word_index(a[i]));
      vector<float> res(next.size(), 77.0);
      int w1 = lm->word_index(a[0]);
      if (cmd == "b") {
        if (inter)
          inter->fetch_bigram_list(w1, next, res);
        else
          tree->fetch_bigram_list(w1, next, res);
      } else
        tree->fetch_trigram_list(w1, lm->word_index(a[1]), next, res);
      for (size_t i = 0; i < res.size(); i++)
        printf("%s%.17g", i ? " " : "", res[i]);
      printf("\n");
    } else if (cmd == "dump") {
      // every n-gram as the iterator shows it, depth first
      TreeGram::Iterator it(tree);
      while (it.next()) {
        for (int j = 1; j <= it.order(); j++)
          printf("%s ", tree->word(it.node(j).word).c_str());
        printf("%.17g %.17g %d;", it.node().log_prob, it.node().back_off, it.has_children() ? 1 : 0);
      }
      printf("\n");
    } else if (cmd == "counts") {
      for (int i = 1; i <= tree->order(); i++)
        printf("%s%d", i > 1 ? " " : "", tree->gram_count(i));
      printf("\n");
    } else if (cmd == "convert") {
      tree->convert_to_backoff();
      printf("converted\n");
    } else if (cmd == "write" || cmd == "writebin") {
      io::Stream out(a[0], "w");
      lm->write(out.file, cmd == "writebin");
      out.close();
      printf("written\n");
    } else if (cmd == "ppl") {
      // score sentences through the library interface: ppl skipunk init_hist
      ppl.reset(new Perplexity(lm, "", "", "", "", a[0] == "1"));
      ppl->set_unk_warn(false);
      if (a.size() > 1)
        ppl->set_init_hist(atoi(a[1].c_str()));
      printf("ready\n");
    } else if (cmd == "tok") {
      float wlp;
      float lp = ppl->logprob(a[0].c_str(), wlp);
      printf("%.17g %.17g %d %d %d\n", lp, wlp, lm->last_order(), ppl->processed_tokens(), ppl->processed_words());
    } else if (cmd == "clearhist") {
      ppl->clear_history();
      printf("cleared\n");
    } else {
      printf("?%s\n", cmd.c_str());
      return 3;
    }
    fflush(stdout);
  }
  return 0;
}
