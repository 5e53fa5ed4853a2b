// Performs the stream operations in the file argv[1]; the answers go to argv[2],
// so that the standard streams are free for the operations.
#include "io.hh"
#include <fstream>
#include <sstream>
#include <stdio.h>
#include <string>

static std::string unhex(const std::string &s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r += (char)strtol(s.substr(i, 2).c_str(), 0, 16);
  return r;
}

int main(int argc, char **argv) {
  std::ifstream ops(argv[1]);
  FILE *ans = fopen(argv[2], "w");
  io::Stream *s = new io::Stream;
  std::string l;
  bool usable = false;
  while (std::getline(ops, l)) {
    std::istringstream f(l);
    std::string op, a, b;
    int n = 0;
    f >> op;
    if (op == "open") {
      f >> a >> b >> n;
      bool ok = true;
      try {
        s->open(unhex(a), b, (io::SeekType)n);
      } catch (io::Stream::OpenError &e) {
        ok = false;
      }
      usable = ok;
      fprintf(ans, "%s\n", ok ? "ok" : "refused");
    } else if (op == "make") { // by the constructor, dropping the old one
      f >> a >> b >> n;
      bool ok = true;
      delete s;
      try {
        s = new io::Stream(unhex(a), b, (io::SeekType)n);
      } catch (io::Stream::OpenError &e) {
        ok = false;
        s = new io::Stream;
      }
      usable = ok;
      fprintf(ans, "%s\n", ok ? "ok" : "refused");
    } else if ((op == "write" || op == "read") && !usable) {
      fprintf(ans, "none\n");
    } else if (op == "write") {
      f >> a >> n;
      std::string d(n, a[0]);
      bool ok = fwrite(d.data(), 1, d.size(), s->file) == d.size();
      fprintf(ans, "%s\n", ok ? "ok" : "failed");
    } else if (op == "read") {
      char buf[4096];
      size_t k;
      while ((k = fread(buf, 1, sizeof buf, s->file)) > 0)
        for (size_t i = 0; i < k; i++) fprintf(ans, "%02x", (unsigned char)buf[i]);
      fprintf(ans, ".\n");
    } else if (op == "close") {
      s->close();
      usable = false;
      fprintf(ans, "%s\n", s->file == NULL ? "closed" : "kept");
    }
    fflush(ans);
  }
  delete s;
  fprintf(ans, "end\n");
  fclose(ans);
  return 0;
}
