// C28: runs an experiment program as it is and records what it reports, line by line:
// driver TRACE SEED TIER EXE NAME LINES   (stops the program after LINES lines that are not empty; 0: lets it end)
#include "vh.hpp"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
namespace vh {
// "1.2345e-08" -> 12345 and -12; a number that is not finite gets the exponent 99999
static std::string number(const std::string &t, bool &ok) {
  const char *p = t.c_str(); std::string dig; int e = 0; bool neg = false, point = false, any = false; ok = true;
  while (*p == ' ') ++p;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if (!strncmp(p, "inf", 3) || !strncmp(p, "nan", 3)) return "{\"m\":0,\"x\":99999}";
  for (; *p; ++p) { if (*p >= '0' && *p <= '9') { any = true; dig += *p; if (point) --e; } else if (*p == '.' && !point) point = true; else break; }
  if (any && *p == 'e') { char *q; e += (int)strtol(p + 1, &q, 10); p = q; }
  while (*p == ' ') ++p;
  if (!any || *p || dig.size() > 9) { ok = false; return ""; }
  while (dig.size() > 1 && dig.back() == '0') { dig.pop_back(); ++e; }
  while (dig.size() > 1 && dig[0] == '0') dig.erase(0, 1);
  if (dig == "0") e = 0;
  return "{\"m\":" + std::string(neg && dig != "0" ? "-" : "") + dig + ",\"x\":" + std::to_string(e) + "}";
}
static void line(const std::string &t) {
  bool ok, ok2;
  std::string a = number(t, ok), label, v = "[" + a + "]"; size_t p;
  if (!ok) {
    v = "[]"; label = t;
    if ((p = t.rfind(" : ")) != t.npos && (a = number(t.substr(p + 3), ok), ok)) { label = t.substr(0, p); v = "[" + a + "]"; }
    else if ((p = t.rfind('[')) != t.npos && t.back() == ']') {
      std::string in = t.substr(p + 1, t.size() - p - 2); size_t c = in.find(',');
      if (c != in.npos) { std::string x = number(in.substr(0, c), ok), y = number(in.substr(c + 1), ok2); if (ok && ok2) { label = t.substr(0, p); v = "[" + x + "," + y + "]"; } }
    }
  }
  for (char &c : label) if (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
  Ev("line").str("label", label).raw("v", v).end();
}
static int drive(int argc, char **argv) {
  if (argc != 7) return 64;
  int want = atoi(argv[6]), f[2], st, n = 0;
  Ev("program").str("name", argv[5]).end();
  if (pipe(f)) return 64;
  pid_t c = fork();
  if (c < 0) return 64;
  if (!c) { dup2(f[1], 1); close(f[0]); close(f[1]); execl(argv[4], argv[4], (char *)nullptr); _exit(127); }
  close(f[1]);
  FILE *in = fdopen(f[0], "r"); char *b = nullptr; size_t cap = 0; ssize_t len; bool stopped = false;
  while ((len = getline(&b, &cap, in)) >= 0) {
    std::string t(b, len); while (!t.empty() && (t.back() == '\n' || t.back() == '\r' || t.back() == ' ')) t.pop_back();
    if (t.empty()) continue;
    line(t); fflush(out);
    if (++n == want) { stopped = true; kill(c, SIGKILL); break; }
  }
  waitpid(c, &st, 0);
  Ev("exit").b("stopped", stopped).i("code", stopped ? 0 : WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)).end();
  return 0;
}
}
int main(int argc, char **argv) { vh::init(argc, argv); int r = vh::drive(argc, argv); vh::fini(); return r; }
