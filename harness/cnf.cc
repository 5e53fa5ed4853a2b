// Reads cases (hex-encoded strings) from stdin, runs each in a child of its
// own over conf::Config, and prints what the configuration then says.
#include "conf.hh"
#include "str.hh"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <vector>

static std::string unhex(const std::string &s) {
  std::string r;
  if (s == "-") return r;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r += (char)strtol(s.substr(i, 2).c_str(), 0, 16);
  return r;
}
static std::string hex(const std::string &s) {
  if (s.empty()) return "-";
  std::string r;
  char b[3];
  for (size_t i = 0; i < s.size(); i++) { sprintf(b, "%02x", (unsigned char)s[i]); r += b; }
  return r;
}

static int child(const std::vector<std::string> &ls, FILE *out) {
  conf::Config c;
  c("usage\n");
  for (size_t i = 0; i < ls.size(); i++) {
    std::istringstream f(ls[i]);
    std::string op, a, b, t, d;
    f >> op;
    if (op == "opt") {
      f >> a >> b >> t >> d;
      std::string sh = unhex(a);
      c(sh.empty() ? 0 : (unsigned char)sh[0], unhex(b), unhex(t), unhex(d), "help");
    } else if (op == "read") {
      int ov;
      f >> ov >> a;
      FILE *tmp = tmpfile();
      std::string x = unhex(a);
      fwrite(x.data(), 1, x.size(), tmp);
      rewind(tmp);
      c.read(tmp, ov);
      fclose(tmp);
    } else if (op == "parse") {
      int n, ov;
      f >> n >> ov;
      std::vector<std::string> v(1, "prog");
      while (f >> a) v.push_back(unhex(a));
      std::vector<char *> p;
      for (size_t k = 0; k < v.size(); k++) p.push_back(&v[k][0]);
      p.push_back(0);
      c.parse((int)v.size(), &p[0], n, ov);
    } else if (op == "required") {
      c.check_required();
    } else if (op == "split") {
      f >> a;
      std::string x = unhex(a);
      std::vector<std::string> v;
      str::split_with_quotes(&x, " \t\n", true, &v);
      for (size_t k = 0; k < v.size(); k++) fprintf(out, "a %s\n", hex(v[k]).c_str());
      fflush(out);
      return 0;
    } else if (op == "int") {
      int n;
      f >> n;
      fprintf(out, "i %d\n", c.options[n].get_int());
    }
  }
  for (size_t k = 0; k < c.options.size(); k++) {
    const conf::Option &o = c.options[k];
    bool same = true;
    if (o.short_name) same = same && &c[o.short_name] == &o;
    fprintf(out, "o %d %s %d\n", (int)o.specified, hex(o.get_str()).c_str(), (int)same);
  }
  for (size_t k = 0; k < c.arguments.size(); k++) fprintf(out, "a %s\n", hex(c.arguments[k]).c_str());
  fflush(out);
  return 0;
}

int main() {
  std::string l;
  std::vector<std::string> ls;
  freopen("/dev/null", "w", stderr);
  while (std::getline(std::cin, l)) {
    if (l != "end") { ls.push_back(l); continue; }
    int fd[2];
    if (pipe(fd)) return 2;
    pid_t p = fork();
    if (!p) {
      close(fd[0]);
      FILE *out = fdopen(fd[1], "w");
      alarm(20);
      int rc = child(ls, out);
      _exit(rc);
    }
    close(fd[1]);
    std::string r;
    char b[4096];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) printf("signal %d\n", WTERMSIG(st));
    else printf("exit %d\n", WEXITSTATUS(st));
    fputs(r.c_str(), stdout);
    printf("end\n");
    fflush(stdout);
    ls.clear();
  }
  return 0;
}
