// Shared machinery of the conformance harnesses: reads histories (command
// scripts), runs each one against the real library in a forked child (so a
// crash or a hang becomes an event of the trace instead of the end of the
// run), and writes one JSON object per history: {"id":..,"hdr":[..],"ev":[..]}.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>

namespace hv {

// ---------------------------------------------------------------- JSON
struct J {
  std::string s;
  bool first = true;
  J() { s = "{"; }
  void key(const char* k) {
    if (!first) s += ",";
    first = false;
    s += "\"";
    s += k;
    s += "\":";
  }
  J& i(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
  J& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  J& str(const char* k, const std::string& v) { key(k); s += "\"" + v + "\""; return *this; }
  J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
  template <class It> J& seq(const char* k, const It& c) {
    key(k); s += "[";
    bool f = true;
    for (auto& x : c) { if (!f) s += ","; f = false; s += std::to_string((long long)x); }
    s += "]"; return *this;
  }
  J& pairs(const char* k, const std::vector<std::pair<int,int>>& c) {
    key(k); s += "[";
    bool f = true;
    for (auto& x : c) { if (!f) s += ","; f = false;
      s += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }
    s += "]"; return *this;
  }
  // doubles are logged exactly, as the two 32-bit halves of their IEEE form
  static std::string dbl(double d) {
    uint64_t u; std::memcpy(&u, &d, 8);
    char buf[40];
    snprintf(buf, sizeof buf, "[%d,%d]", (int32_t)(u >> 32), (int32_t)(u & 0xffffffffu));
    return buf;
  }
  J& d(const char* k, double v) { return raw(k, dbl(v)); }
  template <class V> static std::string vec(const V& v) {
    return "[" + dbl(v[0]) + "," + dbl(v[1]) + "," + dbl(v[2]) + "]";
  }
  template <class V> J& v3(const char* k, const V& v) { return raw(k, vec(v)); }
  std::string done() const { return s + "}"; }
};

inline std::string list(const std::vector<std::string>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i]; }
  return s + "]";
}

// ---------------------------------------------------------------- recorder
struct Shared { volatile size_t len; volatile int cur; volatile int evs; char buf[1]; };
static Shared* g_sh = nullptr;
static const size_t SHCAP = size_t(96) << 20;

inline void emit(const std::string& ev) {
  size_t n = g_sh->len;
  if (n + ev.size() + 64 > SHCAP) { fprintf(stderr, "trace too long\n"); _exit(97); }
  if (g_sh->evs) g_sh->buf[n++] = ',';
  memcpy(g_sh->buf + n, ev.data(), ev.size());
  n += ev.size();
  g_sh->evs = g_sh->evs + 1;
  g_sh->len = n;
}
inline void emit(const J& j) { emit(j.done()); }

struct Cmd {
  std::vector<std::string> t; size_t p = 0;
  std::string op;
  bool more() const { return p < t.size(); }
  std::string w() { if (p >= t.size()) { fprintf(stderr, "short command %s\n", op.c_str()); _exit(98); } return t[p++]; }
  int i() { return atoi(w().c_str()); }
  double d() { return strtod(w().c_str(), nullptr); }
};
struct History { std::string id; Cmd hdr; std::vector<Cmd> cmds; };

inline Cmd parse(const std::string& line) {
  std::istringstream is(line); Cmd c; std::string w; is >> c.op;
  while (is >> w) c.t.push_back(w);
  return c;
}

// usage: harness IN OUT [seconds per history]
// IN: lines "H <id> <header tokens>" followed by one line per command.
inline int run(int argc, char** argv, const std::function<void(History&)>& fn,
               const std::function<std::string(History&)>& header = nullptr) {
  if (argc < 3) { fprintf(stderr, "usage: %s IN OUT [secs]\n", argv[0]); return 2; }
  int secs = argc > 3 ? atoi(argv[3]) : 20;
  std::vector<History> hs;
  { std::ifstream in(argv[1]); std::string line;
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      Cmd c = parse(line);
      if (c.op == "H") { History h; h.id = c.w(); h.hdr = c; h.hdr.p = 1; hs.push_back(h); }
      else if (!hs.empty()) hs.back().cmds.push_back(c);
    } }
  g_sh = (Shared*)mmap(nullptr, SHCAP + sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  FILE* out = fopen(argv[2], "w");
  if (!out) return 2;
  size_t next = 0; int crashes = 0;
  auto flush = [&](size_t k, const char* last) {
    History& h = hs[k];
    std::string hd = header ? header(h) : std::string();
    if (last) emit(J().str("op", last));
    fprintf(out, "{\"id\":\"%s\",%s\"ev\":[", h.id.c_str(), hd.c_str());
    fwrite((const void*)g_sh->buf, 1, g_sh->len, out);
    fputs("]}\n", out);
    fflush(out);
  };
  while (next < hs.size()) {
    fflush(out);
    g_sh->cur = (int)next; g_sh->len = 0; g_sh->evs = 0;
    pid_t pid = fork();
    if (pid == 0) {
      if (!getenv("HV_VERBOSE")) { struct rlimit rl; rl.rlim_cur = rl.rlim_max = size_t(6) << 30; setrlimit(RLIMIT_AS, &rl); }
      struct rlimit rc; rc.rlim_cur = rc.rlim_max = 0; setrlimit(RLIMIT_CORE, &rc);
      if (!getenv("HV_VERBOSE")) {
        // the library writes diagnostics to both streams; they are not part of a trace
        if (!freopen("/dev/null", "w", stderr)) _exit(95);
        if (!freopen("/dev/null", "w", stdout)) _exit(95);
      }
      for (size_t k = next; k < hs.size(); ++k) {
        g_sh->cur = (int)k; g_sh->len = 0; g_sh->evs = 0;
        alarm(secs);
        try { fn(hs[k]); }
        catch (const std::exception& e) { std::string m; for (const char* p = e.what(); *p; ++p) if (isalnum((unsigned char)*p) || *p == ' ' || *p == '_') m += *p; emit(J().str("op", "Exception").str("what", m)); }
        catch (...) { emit(J().str("op", "Exception").str("what", "unknown")); }
        alarm(0);
        flush(k, nullptr);
      }
      fclose(out);
      _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    fseek(out, 0, SEEK_END);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { next = hs.size(); break; }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 95)) { fprintf(stderr, "harness error %d in history %s\n", WEXITSTATUS(st), hs[g_sh->cur].id.c_str()); return 3; }
    size_t k = g_sh->cur;
    flush(k, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "Hang" : "Crash");
    next = k + 1;
    if (++crashes >= 12) { fprintf(stderr, "too many crashes; stopped at history %zu of %zu\n", next, hs.size()); break; }
  }
  fclose(out);
  return 0;
}

}  // namespace hv
