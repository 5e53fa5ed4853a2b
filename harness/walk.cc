// Walks over a model with TreeGram::Iterator: one operation per line, one answer per line.
#include "TreeGram.hh"
#include "io.hh"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
using namespace std;

int main() {
  TreeGram lm;
  TreeGram::Iterator it;
  string line;
  while (getline(cin, line)) {
    istringstream is(line);
    string cmd, a;
    is >> cmd;
    bool r = true;
    if (cmd == "arpa" || cmd == "bin") {
      is >> a;
      io::Stream in(a, "r");
      lm.read(in.file, cmd == "bin");
      printf("loaded %d", lm.order());
      for (int o = 1; o <= lm.order(); o++)
        printf(" %d", lm.gram_count(o));
      printf("\n");
      continue;
    }
    int n = 0;
    if (cmd == "reset")
      it.reset(&lm);
    else if (cmd == "at") {
      TreeGram::Gram g;
      while (is >> a)
        g.push_back(lm.word_index(a));
      it = lm.iterator(g);
    } else if (cmd == "next")
      r = it.next();
    else if (cmd == "order" && is >> n)
      r = it.next_order(n);
    else if (cmd == "move" && is >> n)
      r = it.move_in_context(n);
    else if (cmd == "move1")
      r = it.move_in_context();
    else if (cmd == "up")
      r = it.up();
    else if (cmd == "down")
      r = it.down();
    else if (cmd == "has")
      r = it.has_children();
    else
      return 3;
    printf("%d %d", (int)r, it.order());
    for (int i = 1; i <= it.order(); i++)
      printf(" %s %.9g %.9g", lm.word(it.node(i).word).c_str(), (double)it.node(i).log_prob,
             (double)it.node(i).back_off);
    if (it.order())
      printf(" = %s %.9g %.9g", lm.word(it.node().word).c_str(), (double)it.node().log_prob,
             (double)it.node().back_off);
    printf("\n");
  }
  return 0;
}
