// What follows a history in the training data: Storage_t over data in memory
// and over a file.  Input: one case per "case" line,
//   case WIDTH COUNTS CLEAR FILE
//   hist ORDER N  followed by N lines of ORDER-1 word numbers
// Answers: for each history the words that follow, from memory ("m") and from
// the file ("f"), and for each n-gram its occurrences ("p").
#include "Storage.hh"
#include <iostream>
#include <sstream>
#include <stdio.h>

template <typename K, typename V>
static void ask(Storage_t<K, V> &s, std::vector<std::vector<K>> &hs, char tag) {
  for (size_t h = 0; h < hs.size(); h++) {
    printf("%c", tag);
    int idx;
    V val;
    std::vector<K> v(hs[h]);
    v.push_back(0);
    s.fast_search_next(&v, &idx, &val);
    s.fast_search_next(NULL, &idx, &val);
    for (int k = 0; idx >= 0 && k < 100000; k++) {
      printf(" %d:%ld", idx, (long)val);
      s.fast_search_next(NULL, &idx, &val);
    }
    printf("\n");
  }
}

template <typename K, typename V> static void run(int clear, std::string fname, std::istream &in) {
  Vocabulary voc;
  Storage_t<K, V> s;
  // the words are numbers: word i has index i
  int nw;
  in >> nw;
  for (int i = 1; i <= nw; i++) {
    char b[20];
    sprintf(b, "%d", i);
    voc.add_word(b);
  }
  FILE *f = fopen(fname.c_str(), "r");
  s.read(f, voc);
  fclose(f);
  s.clear_lm_history = clear;
  int sections;
  in >> sections;
  for (int x = 0; x < sections; x++) {
    std::string what;
    int order, n;
    in >> what >> order >> n;
    int dims = what == "hist" ? order - 1 : order;
    std::vector<std::vector<K>> hs(n, std::vector<K>(dims));
    sikMatrix<K, V> m(dims, 10, 0);
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < dims; j++) {
        int k;
        in >> k;
        hs[i][j] = k;
      }
      m.increment(&hs[i][0], 1);
    }
    if (what == "hist") {
      s.initialize_fast_search_lists(order, &m, (sikMatrix<K, V> *)NULL);
      ask(s, hs, 'm');
      s.init_fsl_file(order, &m, fname, &voc);
      ask(s, hs, 'f');
    } else {
      s.initialize_fast_search_lists_for_pruning(order, &m);
      for (int i = 0; i < n; i++)
        printf("p %ld\n", (long)s.prune_lists[FindEntry(m.m, (byte *)&hs[i][0], 0)]);
    }
  }
}

int main() {
  std::string op, fname;
  int width, counts, clear;
  while (std::cin >> op >> width >> counts >> clear >> fname) {
    if (width == 16 && counts == 32)
      run<unsigned short, int>(clear, fname, std::cin);
    else if (width == 16)
      run<unsigned short, long>(clear, fname, std::cin);
    else if (counts == 32)
      run<int, int>(clear, fname, std::cin);
    else
      run<int, long>(clear, fname, std::cin);
    printf("end\n");
    fflush(stdout);
  }
}
