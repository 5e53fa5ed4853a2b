// Vocabulary operations from stdin, one per line, words in hex ("-" is empty);
// one answer per line.
#include "Vocabulary.hh"
#include <iostream>
#include <sstream>
#include <stdio.h>
#include <string>

static std::string unhex(const std::string &s) {
  std::string r;
  if (s == "-") return r;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r += (char)strtol(s.substr(i, 2).c_str(), 0, 16);
  return r;
}
static void hex(const std::string &s) {
  if (s.empty()) printf("-");
  for (size_t i = 0; i < s.size(); i++) printf("%02x", (unsigned char)s[i]);
}

int main(int argc, char **argv) {
  Vocabulary *v = new Vocabulary, *old = NULL;
  std::string l;
  while (std::getline(std::cin, l)) {
    std::istringstream f(l);
    std::string op, a;
    int n = 0;
    f >> op;
    if (op == "new") {
      delete v;
      v = new Vocabulary;
    } else if (op == "add") {
      f >> a;
      printf("%d", v->add_word(unhex(a)));
    } else if (op == "index") {
      f >> a;
      printf("%d", v->word_index(unhex(a)));
    } else if (op == "word") {
      f >> n;
      hex(v->word(n));
    } else if (op == "num") {
      printf("%d", v->num_words());
    } else if (op == "oov") {
      f >> n;
      printf("%d", (int)v->is_oov(n));
    } else if (op == "setoov") {
      f >> a;
      v->set_oov(unhex(a));
    } else if (op == "clear") {
      v->clear_words();
    } else if (op == "list") {
      for (int i = 0; i < v->num_words(); i++) {
        printf("%s", i ? " " : "");
        hex(v->word(i));
      }
    } else if (op == "read") { // a file
      f >> a;
      try {
        v->read(unhex(a));
        printf("ok");
      } catch (std::exception &e) {
        printf("refused");
      }
    } else if (op == "fread") { // a stream
      f >> a;
      FILE *in = fopen(unhex(a).c_str(), "r");
      v->read(in);
      fclose(in);
    } else if (op == "write") {
      char *buf = NULL;
      size_t len = 0;
      FILE *out = open_memstream(&buf, &len);
      v->write(out);
      fclose(out);
      hex(std::string(buf, len));
      free(buf);
    } else if (op == "copy") { // go on with the copy; what happens to it stays there
      old = v;
      v = new Vocabulary;
      old->copy_vocab_to(*v);
    } else if (op == "back") { // to the one copied from
      delete v;
      v = old;
    }
    printf("\n");
    fflush(stdout);
  }
  return 0;
}
