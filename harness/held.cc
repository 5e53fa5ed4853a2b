// The held-out search of discounts, watched from the outside.
//   held train three absolute n ss data opti vocab prune arpaout outdir   (ss/vocab "-" = none)
//   held valley seed-free: reads "dims ltol atol max" and per dimension "low high start centre left right"
#include "InterKn.hh"
#include "QFit.hh"
#include "TreeGram.hh"
#include "io.hh"
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
using namespace std;

static FILE *out;
static string outdir;
static int searches = 0;

static void point(const char *what, const vector<float> &v) {
  fprintf(out, "%s", what);
  for (float x : v)
    fprintf(out, " %.9g", (double)x);
}

template <class B> struct Watched : B {
  using B::B;
  float evaluate(vector<float> &v) override {
    point("eval", v);
    float r = B::evaluate(v);
    fprintf(out, " : %.9g\n", (double)r);
    return r;
  }
  void find_coeffs(float brak, float precision, float lin) override {
    vector<float> d;
    this->disc2flatv(d);
    point("start", d);
    fprintf(out, "\n");
    FILE *c = fopen((outdir + "/c" + to_string(searches)).c_str(), "w");
    this->write_counts(c);
    fclose(c);
    searches++;
    B::find_coeffs(brak, precision, lin);
    this->disc2flatv(d);
    point("end", d);
    fprintf(out, "\n");
  }
};

struct Valley : QFitEvaluator {
  vector<double> c, a, b;
  float evaluate(vector<float> &v) override {
    double t = 0;
    for (size_t i = 0; i < v.size(); i++) {
      double x = v[i] - c[i];
      t += x < 0 ? a[i] * x * x : b[i] * x * x;
    }
    point("eval", v);
    fprintf(out, "\n");
    return (float)t;
  }
};

int main(int argc, char **argv) {
  string mode = argv[1];
  if (mode == "valley") {
    out = stdout;
    int n, max;
    double lt, at;
    while (scanf("%d %lf %lf %d", &n, &lt, &at, &max) == 4) {
      Valley v;
      vector<float> lo(n), hi(n), st(n);
      v.c.resize(n), v.a.resize(n), v.b.resize(n);
      for (int i = 0; i < n; i++) {
        double l, h, s;
        if (scanf("%lf %lf %lf %lf %lf %lf", &l, &h, &s, &v.c[i], &v.a[i], &v.b[i]) != 6)
          return 2;
        lo[i] = l, hi[i] = h, st[i] = s;
      }
      QFit q(lt, at, &v);
      q.set_initial_point(st);
      q.set_minimum(lo);
      q.set_maximum(hi);
      fprintf(out, "case\n");
      vector<float> r = q.minimize(max);
      point("end", r);
      fprintf(out, "\n");
    }
    return 0;
  }
  bool three = atoi(argv[2]), absolute = atoi(argv[3]);
  int n = atoi(argv[4]);
  auto arg = [&](int i) { return string(argv[i]) == "-" ? string() : string(argv[i]); };
  string ss = arg(5), data = arg(6), opti = arg(7), vocab = arg(8), lmout = arg(10);
  float prune = atof(argv[9]);
  outdir = argv[11];
  out = fopen((outdir + "/log").c_str(), "w");
  unique_ptr<InterKn> kn;
  if (three)
    kn.reset(new Watched<InterKn_int_disc3<int, int>>(absolute, data, vocab, opti, 0, n, 0, 0, nullptr, data, ss, 10000));
  else
    kn.reset(new Watched<InterKn_int_disc<int, int>>(absolute, data, vocab, opti, 0, n, 0, 0, nullptr, data, ss, 10000));
  kn->init_disc(0.71);
  kn->create_model(prune);
  io::Stream v(outdir + "/u", "w");
  kn->vocab.write(v.file);
  v.close();
  FILE *c = fopen((outdir + "/cend").c_str(), "w");
  kn->write_counts(c);
  fclose(c);
  TreeGram lm;
  io::Stream m(lmout, "w");
  kn->counts2lm(&lm);
  lm.write(m.file, false);
  m.close();
  fclose(out);
  return 0;
}
