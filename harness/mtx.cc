// Drives sikMatrix, one operation per line, one answer per line.
#include "sikMatrix.hh"
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using namespace std;

struct Box {
  virtual ~Box() {}
  virtual string op(istringstream &in) = 0;
};

template <typename K, typename V> struct Mat : Box {
  sikMatrix<K, V> m;
  int dims;
  V unit;
  Mat(int d, int h, long def, V u) : m(d, h, (V)def * u), dims(d), unit(u) {}
  // values are whole multiples of unit
  string num(V v) {
    V q = v / unit;
    long l = (long)q;
    if ((V)l * unit != v)
      return "?";
    ostringstream o;
    o << l;
    return o.str();
  }
  V val(istringstream &in) {
    long l;
    in >> l;
    return (V)l * unit;
  }
  vector<K> key(istringstream &in) {
    vector<K> k(dims);
    for (int i = 0; i < dims; i++) {
      long x;
      in >> x;
      k[i] = (K)x;
    }
    return k;
  }
  string show(const vector<K> &k, V v) {
    ostringstream o;
    for (int i = 0; i < dims; i++)
      o << (long)k[i] << " ";
    o << num(v);
    return o.str();
  }
  string op(istringstream &in) {
    string c;
    in >> c;
    if (c == "set") {
      vector<K> k = key(in);
      m.setvalue(&k[0], val(in));
      return "ok";
    }
    if (c == "setp") {
      vector<K> k = key(in);
      V v = val(in);
      m.setvalue(&k[0], &v);
      return "ok";
    }
    if (c == "get") {
      vector<K> k = key(in);
      return num(m.getvalue(&k[0]));
    }
    if (c == "getp") {
      vector<K> k = key(in);
      V v = 77 * unit;
      m.getvalue(&k[0], &v);
      return num(v);
    }
    if (c == "inc") {
      vector<K> k = key(in);
      return num(m.increment(&k[0], val(in)));
    }
    if (c == "incp") {
      vector<K> k = key(in);
      V v = val(in);
      return num(m.increment(&k[0], &v));
    }
    if (c == "incwo") {
      vector<K> k = key(in);
      return num(m.increment_wo_del(&k[0], val(in)));
    }
    if (c == "has") {
      vector<K> k = key(in);
      return FindEntry(m.m, (byte *)&k[0], 0) >= 0 ? "1" : "0";
    }
    if (c == "del") {
      vector<K> k = key(in);
      FindEntry(m.m, (byte *)&k[0], -1);
      return "ok";
    }
    if (c == "n")
      { ostringstream o; o << (long)m.num_entries(); return o.str(); }
    if (c == "clear") {
      m.clear();
      return "ok";
    }
    if (c == "rmdef") {
      RemoveDefaultValues(m.m);
      return "ok";
    }
    if (c == "step" || c == "ostep" || c == "stept" || c == "ostept" || c == "delstep" || c == "setstep" || c == "part") {
      V lim = 0;
      long stop = -1;
      if (c == "delstep" || c == "setstep")
        lim = val(in);
      if (c == "part")
        in >> stop;
      vector<K> k(dims);
      V v;
      string out;
      long seen = 0, most = 1000000;
      m.stept_sortsearch = (c == "ostept");
      bool ord = (c == "ostep");
      bool st = (c == "stept" || c == "ostept");
      if (st) m.stept(true, &k[0], &v);
      else if (ord) m.ordered_stepthrough(true, &k[0], &v);
      else m.stepthrough(true, &k[0], &v);
      while (seen != stop) {
        void *p;
        if (st) p = m.stept(false, &k[0], &v);
        else if (ord) p = m.ordered_stepthrough(false, &k[0], &v);
        else p = m.stepthrough(false, &k[0], &v);
        if (!p)
          break;
        out += (out.empty() ? "" : ";") + show(k, v);
        if (*(V *)p != v)
          out += " pointer";
        if (c == "delstep" && v <= lim)
          m.delete_current_st();
        if (c == "setstep")
          *(V *)p += lim;
        if (++seen > most)
          return "endless";
      }
      return "[" + out + "]";
    }
    return "?";
  }
};

int main() {
  Box *b = NULL;
  string line;
  while (getline(cin, line)) {
    istringstream in(line);
    string c;
    in >> c;
    if (c == "new") {
      string t;
      int d, h;
      long def;
      in >> t >> d >> h >> def;
      delete b;
      if (t == "ii") b = new Mat<int, int>(d, h, def, 1);
      else if (t == "si") b = new Mat<unsigned short, int>(d, h, def, 1);
      else if (t == "sl") b = new Mat<unsigned short, long>(d, h, def, 1);
      else if (t == "if") b = new Mat<int, float>(d, h, def, 0.25f);
      else if (t == "sf") b = new Mat<unsigned short, float>(d, h, def, 0.25f);
      else if (t == "id") b = new Mat<int, double>(d, h, def, 0.125);
      else b = new Mat<unsigned char, unsigned char>(d, h, def, 1);
      puts("ok");
    } else {
      istringstream in2(line);
      puts(b->op(in2).c_str());
    }
    fflush(stdout);
  }
  delete b;
}
