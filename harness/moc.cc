// Drives MultiOrderCounts, one operation per line, one answer per line.
#include "InterKn.hh"
#include "MultiOrderCounts.hh"
#include "Vocabulary.hh"
#include "str.hh"
#include "def.hh"
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using namespace std;

struct Box {
  virtual ~Box() {}
  virtual string op(istringstream &in) = 0;
};

template <typename CT> void nz_set(MultiOrderCounts_counter_types::bo_c<CT> &b, istringstream &in) { long x; in >> x; b.nzer = x; }
template <typename CT> void nz_set(MultiOrderCounts_counter_types::bo_3c<CT> &b, istringstream &in) {
  for (int i = 0; i < 3; i++) { long x; in >> x; b.nzer[i] = x; }
}
template <typename CT> void nz_show(const MultiOrderCounts_counter_types::bo_c<CT> &b, ostream &o) { o << (long)b.nzer; }
template <typename CT> void nz_show(const MultiOrderCounts_counter_types::bo_3c<CT> &b, ostream &o) {
  o << (long)b.nzer[0] << " " << (long)b.nzer[1] << " " << (long)b.nzer[2];
}
template <typename KT, typename CT> void nz_inc(MultiOrderCounts_1nzer<KT, CT> &m, int o, const KT *v, int pos, CT x, bool cache) {
  if (cache) m.IncrementBackoffCacheNzer(o, v, x);
  else m.IncrementBackoffNzer(o, v, x);
}
template <typename KT, typename CT> void nz_inc(MultiOrderCounts_3nzer<KT, CT> &m, int o, const KT *v, int pos, CT x, bool cache) {
  if (!cache) m.IncrementBackoffNzer(o, v, pos, x);
  else if (pos == 1) { CT a[3] = {0, x, 0}; m.IncrementBackoffCacheNzer(o, v, a); }
  else m.IncrementBackoffCacheNzer(o, v, pos, x);
}

template <typename M, typename KT, typename CT, typename BOT> struct Moc : Box {
  M m;
  vector<KT> key(istringstream &in, int n) {
    vector<KT> k(n + 1);
    for (int i = 0; i < n; i++) {
      long x;
      in >> x;
      k[i] = (KT)x;
    }
    return k;
  }
  BOT bo(istringstream &in) {
    BOT b;
    long x;
    m.zero_bo(b);
    in >> x; b.den = x;
    nz_set(b, in);
    in >> x; b.prune_den = x;
    return b;
  }
  string show(const BOT &b) {
    ostringstream o;
    o << (long)b.den << " ";
    nz_show(b, o);
    o << " " << (long)b.prune_den;
    return o.str();
  }
  string num(long x) { ostringstream o; o << x; return o.str(); }
  string op(istringstream &in) {
    string c;
    in >> c;
    int o = 0;
    long x = 0;
    if (c == "alloc") {
      in >> o;
      BOT z;
      m.zero_bo(z);
      vector<KT> k(o + 1, 0);
      m.SetCount(o, &k[0], 0);
      m.IncrementBackoffDen(o, &k[0], 0);
      return "ok";
    }
    if (c == "cnt" || c == "setc" || c == "ccnt") {
      in >> o;
      vector<KT> k = key(in, o);
      in >> x;
      if (c == "cnt") return num(m.IncrementCount(o, &k[0], x));
      if (c == "ccnt") return num(m.IncrementCountCache(o, &k[0], x));
      m.SetCount(o, &k[0], x);
      return "ok";
    }
    if (c == "getc") {
      in >> o;
      vector<KT> k = key(in, o);
      return num(m.GetCount(o, &k[0]));
    }
    if (c == "bo" || c == "cbo" || c == "setb") {
      in >> o;
      vector<KT> k = key(in, o - 1);
      BOT b = bo(in);
      if (c == "bo") m.IncrementBackoff(o, &k[0], &b);
      else if (c == "cbo") m.IncrementBackoffCache(o, &k[0], &b);
      else m.SetBackoff(o, &k[0], &b);
      return "ok";
    }
    if (c == "den" || c == "cden") {
      in >> o;
      vector<KT> k = key(in, o - 1);
      in >> x;
      if (c == "den") m.IncrementBackoffDen(o, &k[0], x);
      else m.IncrementBackoffCacheDen(o, &k[0], x);
      return "ok";
    }
    if (c == "nz" || c == "cnz") {
      in >> o;
      vector<KT> k = key(in, o - 1);
      int pos;
      in >> pos >> x;
      nz_inc(m, o, &k[0], pos, (CT)x, c == "cnz");
      return "ok";
    }
    if (c == "getb") {
      in >> o;
      vector<KT> k = key(in, o - 1);
      BOT b;
      m.GetBackoff(o, &k[0], &b);
      return show(b);
    }
    if (c == "getden") {
      in >> o;
      vector<KT> k = key(in, o - 1);
      return num(m.GetBackoffDen(o, &k[0]));
    }
    if (c == "reset") { m.ResetCaches(); return "ok"; }
    if (c == "undo") { m.UndoCached(); return "ok"; }
    if (c == "rmdefbo") { m.RemoveDefaultBackoffs(); return "ok"; }
    if (c == "clearder") { m.clear_derived_counts(); return "ok"; }
    if (c == "clearnz") { in >> o; m.clear_nzer(o); return "ok"; }
    if (c == "next") {
      string out;
      vector<KT> v;
      long n = 0;
      while (m.NextVector(v)) {
        out += out.empty() ? "" : ";";
        for (size_t i = 0; i < v.size(); i++)
          out += (i ? " " : "") + num(v[i]);
        if (++n > 1000000) return "endless";
      }
      return "[" + out + "]";
    }
    if (c == "counts" || c == "ocounts") {
      string out;
      for (o = 1; o <= m.order(); o++) {
        vector<KT> k(o);
        CT v;
        long n = 0;
        if (c == "counts") m.StepCountsOrder(true, o, &k[0], &v);
        else m.OrderedStepCountsOrder(true, o, &k[0], &v);
        while (c == "counts" ? m.StepCountsOrder(false, o, &k[0], &v) : m.OrderedStepCountsOrder(false, o, &k[0], &v)) {
          out += out.empty() ? "" : ";";
          for (int i = 0; i < o; i++) out += num(k[i]) + " ";
          out += num(v);
          n++;
        }
        if (n != m.order_size(o)) return "size";
      }
      return "[" + out + "]";
    }
    if (c == "backoffs") {
      string out;
      for (o = 2; o < (int)m.m_backoffs.size() && o <= m.order(); o++) {
        vector<KT> k(o);
        BOT v;
        long n = 0;
        m.StepBackoffsOrder(true, o, &k[0], &v);
        while (m.StepBackoffsOrder(false, o, &k[0], &v)) {
          out += out.empty() ? "" : ";";
          for (int i = 0; i < o - 1; i++) out += num(k[i]) + " ";
          out += "| " + show(v);
          n++;
        }
        if (n != m.bo_order_size(o)) return "size";
      }
      return "[" + out + "]";
    }
    return "?";
  }
};

int main() {
  Box *b = NULL;
  string line;
  while (getline(cin, line)) {
    istringstream in(line);
    string c;
    in >> c;
    if (c == "new") {
      string t;
      in >> t;
      delete b;
      if (t == "i1") b = new Moc<MultiOrderCounts_1nzer<int, int>, int, int, MultiOrderCounts_counter_types::bo_c<int> >;
      else if (t == "s1") b = new Moc<MultiOrderCounts_1nzer<unsigned short, int>, unsigned short, int, MultiOrderCounts_counter_types::bo_c<int> >;
      else if (t == "i3") b = new Moc<MultiOrderCounts_3nzer<int, int>, int, int, MultiOrderCounts_counter_types::bo_3c<int> >;
      else if (t == "s3") b = new Moc<MultiOrderCounts_3nzer<unsigned short, int>, unsigned short, int, MultiOrderCounts_counter_types::bo_3c<int> >;
      else if (t == "l1") b = new Moc<MultiOrderCounts_1nzer<int, long>, int, long, MultiOrderCounts_counter_types::bo_c<long> >;
      else b = new Moc<MultiOrderCounts_3nzer<int, long>, int, long, MultiOrderCounts_counter_types::bo_3c<long> >;
      puts("ok");
    } else {
      istringstream in2(line);
      puts(b->op(in2).c_str());
    }
    fflush(stdout);
  }
  delete b;
}
