#include "core.h"
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

static std::string vfmt(const char *fmt, va_list ap) {
  char b[4096];
  vsnprintf(b, sizeof b, fmt, ap);
  return b;
}
void Scenario::item(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  items.push_back(vfmt(fmt, ap));
  va_end(ap);
}
void Result::fail(const std::string &c, const char *fmt, ...) {
  if (violated)
    return;
  violated = true;
  cls = c;
  va_list ap;
  va_start(ap, fmt);
  msg = vfmt(fmt, ap);
  va_end(ap);
}
void Result::ev(const char *fmt, ...) {
  if (trace.size() > 4000)
    return;
  va_list ap;
  va_start(ap, fmt);
  trace.push_back(vfmt(fmt, ap));
  va_end(ap);
}
std::string Scenario::text() const {
  std::ostringstream o;
  o << "prop " << prop << "\nseed " << seed << "\n";
  for (auto &p : params)
    o << "param " << p.first << " " << p.second << "\n";
  for (auto &i : items)
    o << "item " << i << "\n";
  return o.str();
}
bool Scenario::parse(const std::string &txt, Scenario &s) {
  std::istringstream in(txt);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#')
      continue;
    auto sp = line.find(' ');
    std::string w = line.substr(0, sp), rest = sp == std::string::npos ? "" : line.substr(sp + 1);
    if (w == "prop")
      s.prop = rest;
    else if (w == "seed")
      s.seed = strtoull(rest.c_str(), nullptr, 10);
    else if (w == "param") {
      auto q = rest.find(' ');
      s.params.push_back({rest.substr(0, q), q == std::string::npos ? "" : rest.substr(q + 1)});
    } else if (w == "item")
      s.items.push_back(rest);
    else
      return false;
  }
  return !s.prop.empty();
}
Item parse_item(const std::string &line) {
  Item it;
  std::istringstream in(line);
  in >> it.op;
  double v;
  while (in >> v)
    it.a.push_back(v);
  return it;
}

static std::map<std::string, Property> &props() {
  static std::map<std::string, Property> p;
  return p;
}
void register_property(const std::string &id, Property p) { props()[id] = p; }

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      o += '\\', o += c;
    else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126)
      o += '?';
    else
      o += c;
  }
  return o + "\"";
}
static std::string jnum(double v) {
  if (!std::isfinite(v))
    return v != v ? "\"nan\"" : "\"inf\"";
  char b[64];
  snprintf(b, sizeof b, "%.12g", v);
  return b;
}
static std::string to_json(const Scenario &sc, const Result &r, bool with_trace) {
  std::ostringstream o;
  char hb[32];
  snprintf(hb, sizeof hb, "%016llx", (unsigned long long)r.hash.h);
  o << "{\"seed\":" << sc.seed << ",\"hash\":\"" << hb << "\",\"viol\":" << (r.violated ? "true" : "false") << ",\"cls\":" << jstr(r.cls)
    << ",\"msg\":" << jstr(r.msg) << ",\"simtime\":" << jnum(r.simtime) << ",\"items\":" << sc.items.size()
    << ",\"nontrivial\":" << (r.nontrivial ? "true" : "false") << ",\"stats\":{";
  bool f = true;
  for (auto &k : r.stats)
    o << (f ? "" : ",") << jstr(k.first) << ":" << jnum(k.second), f = false;
  o << "},\"max\":{";
  f = true;
  for (auto &k : r.maxima)
    o << (f ? "" : ",") << jstr(k.first) << ":" << jnum(k.second), f = false;
  o << "},\"states\":[";
  f = true;
  int n = 0;
  for (auto &k : r.states) {
    if (n++ > 20000)
      break;
    snprintf(hb, sizeof hb, "%llx", (unsigned long long)k);
    o << (f ? "" : ",") << "\"" << hb << "\"", f = false;
  }
  o << "]";
  if (with_trace) {
    o << ",\"trace\":[";
    f = true;
    for (auto &k : r.trace)
      o << (f ? "" : ",") << jstr(k), f = false;
    o << "]";
  }
  o << "}";
  return o.str();
}

static void write_all(int fd, const std::string &s) {
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = ::write(fd, s.data() + off, s.size() - off);
    if (n < 0) {
      if (errno == EINTR)
        continue;
      _exit(97);
    }
    off += n;
  }
}

int g_result_fd = -1;
const Scenario *g_scenario = nullptr;
Result *g_result = nullptr;
// Called by runtimes that must end the run immediately (deadlock, use after free, ...): report and leave.
void finish_now(const char *cls, const char *msg) {
  static bool once = false;
  if (once)
    _exit(98);
  once = true;
  if (g_result && !g_result->violated) {
    g_result->violated = true;
    g_result->cls = cls;
    g_result->msg = msg;
  }
  if (g_result_fd >= 0 && g_result && g_scenario) {
    std::string o = to_json(*g_scenario, *g_result, true) + "\n";
    write_all(g_result_fd, o);
  }
  _exit(0);
}

// Runs one scenario in a forked child; returns the JSON line.
static std::string run_child(const Scenario &sc, bool with_trace, double *wall) {
  auto it = props().find(sc.prop);
  if (it == props().end()) {
    fprintf(stderr, "unknown property %s\n", sc.prop.c_str());
    exit(2);
  }
  int fds[2];
  if (pipe(fds))
    exit(2);
  int errfd = memfd_create("stderr", 0);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    ::close(fds[0]);
    int nul = open("/dev/null", O_RDWR);
    if (!getenv("SIM_VERBOSE")) {
      dup2(nul, 1);
      dup2(errfd, 2);
    }
    struct rlimit rl = {(rlim_t)it->second.cpu_limit_s, (rlim_t)it->second.cpu_limit_s + 5};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0, 0};
    setrlimit(RLIMIT_CORE, &rc);
    g_result_fd = fds[1];
    Result r;
    g_scenario = &sc;
    g_result = &r;
    try {
      it->second.run(sc, r);
    } catch (Stop &) {
    } catch (std::exception &e) {
      r.fail("crash:exception", "uncaught exception: %s", e.what());
    }
    std::string o = to_json(sc, r, with_trace) + "\n";
    write_all(fds[1], o);
    _exit(0);
  }
  ::close(fds[1]);
  std::string out;
  char buf[65536];
  ssize_t n;
  while ((n = read(fds[0], buf, sizeof buf)) != 0) {
    if (n < 0) {
      if (errno == EINTR)
        continue;
      break;
    }
    out.append(buf, n);
  }
  ::close(fds[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  std::string tail;
  off_t len = lseek(errfd, 0, SEEK_END);
  off_t from = len > 1200 ? len - 1200 : 0;
  tail.resize(len - from);
  if (pread(errfd, &tail[0], tail.size(), from) < 0)
    tail.clear();
  ::close(errfd);
  if (!out.empty() && out.back() == '\n')
    return out;
  // died without a result
  Result r;
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    std::string what = sg == SIGXCPU || sg == SIGKILL ? "hang" : "crash";
    // keep the assertion text out of addresses so that the class is stable
    std::string as;
    auto p = tail.find("Assertion");
    if (p != std::string::npos) {
      as = tail.substr(p, 160);
      auto e = as.find('\n');
      if (e != std::string::npos)
        as.resize(e);
    }
    r.fail(what + ":signal" + std::to_string(sg) + (as.empty() ? "" : ":assert"), "%s %s", strsignal(sg), as.empty() ? "" : as.c_str());
  } else
    r.fail("crash:exit", "process exited with status %d %.300s", WEXITSTATUS(st), tail.c_str());
  r.hash.s(r.cls);
  r.hash.s(r.msg);
  r.nontrivial = true;
  return to_json(sc, r, with_trace) + "\n";
}

static std::string slurp(const char *p) {
  std::ifstream f(p);
  std::stringstream b;
  b << f.rdbuf();
  return b.str();
}

static Scenario make(const std::string &prop, uint64_t seed) {
  Scenario sc;
  sc.prop = prop;
  sc.seed = seed;
  Rng r(Rng::derive(seed, prop.c_str()));
  props().at(prop).gen(sc, r);
  return sc;
}

int harness_main(int argc, char **argv) {
  // One fixed memory layout per process, so that nothing can depend on address randomisation.
  if (!getenv("SIM_ASLR")) {
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE)) {
      if (personality(pers | ADDR_NO_RANDOMIZE) >= 0 && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
      }
    }
  }
  signal(SIGPIPE, SIG_IGN);
  if (argc >= 6 && !strcmp(argv[1], "batch")) {
    // batch PROP BASE FIRST COUNT [STRIDE] [DEADLINE_UNIX]
    std::string prop = argv[2];
    uint64_t base = strtoull(argv[3], nullptr, 10), first = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10);
    uint64_t stride = argc > 6 ? strtoull(argv[6], nullptr, 10) : 1;
    double budget = argc > 7 ? strtod(argv[7], nullptr) : 1e18; // seconds of real time for the whole batch
    struct timespec a, b;
    syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &a);
    for (uint64_t i = 0; i < count; i++) {
      syscall(228, CLOCK_MONOTONIC, &b);
      if ((b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec) > budget)
        break;
      Scenario sc = make(prop, base * 1000000ULL + first + i * stride);
      std::string o = run_child(sc, false, nullptr);
      write_all(1, o);
    }
    return 0;
  }
  if (argc >= 4 && !strcmp(argv[1], "gen")) {
    Scenario sc = make(argv[2], strtoull(argv[3], nullptr, 10));
    write_all(1, sc.text());
    return 0;
  }
  if (argc >= 3 && !strcmp(argv[1], "exec")) {
    for (int i = 2; i < argc; i++) {
      Scenario sc;
      if (!Scenario::parse(slurp(argv[i]), sc)) {
        fprintf(stderr, "bad scenario %s\n", argv[i]);
        return 2;
      }
      write_all(1, run_child(sc, true, nullptr));
    }
    return 0;
  }
  fprintf(stderr, "usage: %s batch PROP BASE FIRST COUNT [STRIDE [BUDGET]] | gen PROP SEED | exec FILE...\n", argv[0]);
  return 2;
}
} // namespace sim
