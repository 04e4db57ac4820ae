#include "engine.h"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unordered_set>
#include <unistd.h>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=12:"
         "quarantine_size_mb=16:symbolize=0:detect_odr_violation=0:alloc_dealloc_mismatch=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=99"; }

// ---------------------------------------------------------------------------
// coverage: callbacks of -fsanitize-coverage=inline-8bit-counters,trace-cmp
namespace {
struct Region {
  uint8_t* b;
  uint8_t* e;
};
Region g_regions[512];
size_t g_nregions = 0;

constexpr size_t kDict = 4096;
uint64_t g_dict[kDict];
uint64_t g_dict_hash[kDict * 2];
size_t g_ndict = 0;
bool g_dict_on = false;

inline void dict_add(uint64_t v) {
  if (!g_dict_on || v < 2 || g_ndict >= kDict) return;
  size_t h = (v * 0x9e3779b97f4a7c15ULL) >> 51;  // 13 bits
  for (size_t i = 0; i < 8; ++i) {
    auto& slot = g_dict_hash[(h + i) & (kDict * 2 - 1)];
    if (slot == v) return;
    if (slot == 0) {
      slot = v;
      g_dict[g_ndict++] = v;
      return;
    }
  }
}
}  // namespace

#define NOSAN __attribute__((no_sanitize("address", "undefined", "coverage")))
extern "C" {
NOSAN void __sanitizer_cov_8bit_counters_init(uint8_t* b, uint8_t* e) {
  for (size_t i = 0; i < g_nregions; ++i)
    if (g_regions[i].b == b) return;
  if (g_nregions < 512) g_regions[g_nregions++] = {b, e};
}
NOSAN void __sanitizer_cov_trace_const_cmp1(uint8_t, uint8_t) {}
NOSAN void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { dict_add(a); }
NOSAN void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { dict_add(a); }
NOSAN void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { dict_add(a); }
NOSAN void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
NOSAN void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
NOSAN void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
NOSAN void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
NOSAN void __sanitizer_cov_trace_switch(uint64_t, uint64_t* cases) {
  if (cases[1] > 8)
    for (uint64_t i = 0; i < cases[0]; ++i) dict_add(cases[2 + i]);
}
}

namespace vf {

uint64_t dict_pick(Rng& r, bool* ok) {
  if (g_ndict == 0) {
    *ok = false;
    return 0;
  }
  *ok = true;
  return g_dict[r.below(g_ndict)];
}

namespace {
std::vector<Prop>& props() {
  static std::vector<Prop> p;
  return p;
}

double now_s() {
  timespec ts;
  syscall(228 /*SYS_clock_gettime*/, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

// ---------------------------------------------------------------------------
// shared memory of one executing process
constexpr size_t kMaxChoices = 1 << 20;
constexpr size_t kMaxSpans = 1 << 18;
struct Shm {
  volatile uint64_t case_idx;
  volatile double case_start;   // 0: between cases
  volatile uint64_t cases_done;
  volatile int result;          // 0 running, 1 pass, 2 discard, 3 fail
  volatile int nontrivial;
  volatile uint64_t checks;
  volatile uint64_t nchoices;
  volatile uint64_t nspans;
  char msg[8192];
  char labels[4096];
  volatile uint64_t trace_len;
  char trace[1 << 18];
  uint64_t choices[kMaxChoices];
  uint32_t spans[kMaxSpans][2];
};
Shm* g_shm = nullptr;  // of this process

Shm* new_shm() {
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Shm*>(p);
}

void set_str(char* dst, size_t cap, const std::string& s) {
  size_t n = std::min(cap - 1, s.size());
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

// run one case in this process; result goes to g_shm
void run_case(const Prop& p, Ctx& c) {
  g_shm->nchoices = 0;
  g_shm->nspans = 0;
  g_shm->trace_len = 0;
  g_shm->msg[0] = 0;
  g_shm->result = 0;
  g_shm->case_start = now_s();
  int res = 1;
  try {
    p.fn(c);
  } catch (const Failure& f) {
    res = 3;
    set_str(g_shm->msg, sizeof g_shm->msg, f.msg);
  } catch (const Discard&) {
    res = 2;
  } catch (const std::exception& e) {
    res = 3;
    set_str(g_shm->msg, sizeof g_shm->msg, std::string("unexpected exception: ") + e.what());
  }
  g_shm->nontrivial = c.nontrivial_ ? 1 : 0;
  g_shm->checks = c.checks_;
  std::string l;
  for (const auto& x : c.labels_) l += x + "\n";
  set_str(g_shm->labels, sizeof g_shm->labels, l);
  g_shm->case_start = 0;
  g_shm->result = res;
}

uint64_t hash_choices(const uint64_t* d, size_t n) {
  uint64_t h = 1469598103934665603ULL ^ n;
  for (size_t i = 0; i < n; ++i) {
    h ^= d[i] + 0x9e3779b97f4a7c15ULL;
    h *= 1099511628211ULL;
    h ^= h >> 29;
  }
  return h;
}

std::string g_scratch;

struct Outcome {
  int result = 0;  // 1 pass 2 discard 3 fail 4 crash 5 hang
  std::string msg;
  std::vector<uint64_t> choices;
  std::vector<std::pair<uint32_t, uint32_t>> spans;
  std::string trace;
  bool bad() const { return result >= 3; }
};

std::string read_file(const std::string& p, size_t max) {
  std::ifstream f(p);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (s.size() > max) s.resize(max);
  return s;
}

std::string crash_text(int status, const std::string& errfile) {
  std::string t;
  if (WIFSIGNALED(status))
    t = "killed by signal " + std::to_string(WTERMSIG(status));
  else
    t = "process exited with code " + std::to_string(WEXITSTATUS(status));
  auto err = read_file(errfile, 1 << 20);
  auto at = err.find("ERROR: AddressSanitizer");
  if (at == std::string::npos) at = err.find("runtime error:");
  if (at == std::string::npos) at = err.find("Assertion");
  if (at == std::string::npos) at = err.find("terminate called");
  if (at != std::string::npos) {
    auto b = err.rfind('\n', at);
    b = b == std::string::npos ? 0 : b + 1;
    t += ": " + err.substr(b, 1500);
  } else if (!err.empty()) {
    t += ": " + err.substr(0, 600);
  }
  return t;
}

void redirect_err(const std::string& f) {
  int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
}

void child_setup() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

// run sequences of cases (normally of one case) in fresh processes, in parallel
constexpr size_t kPar = 8;
std::vector<Outcome> exec_many(const Prop& p, const std::vector<std::vector<std::vector<uint64_t>>>& seqs,
                               bool zero_after, uint64_t seed, bool tracing) {
  static Shm* shms[kPar] = {};
  struct Run {
    pid_t pid = 0;
    std::string err;
    double t0 = 0;
    bool done = false, hung = false;
    int status = 0;
  };
  std::vector<Outcome> out(seqs.size());
  for (size_t base = 0; base < seqs.size(); base += kPar) {
    size_t n = std::min(kPar, seqs.size() - base);
    std::vector<Run> runs(n);
    fflush(nullptr);
    for (size_t i = 0; i < n; ++i) {
      if (!shms[i]) shms[i] = new_shm();
      Shm* shm = shms[i];
      auto& r = runs[i];
      r.err = g_scratch + "/exec_err_" + std::to_string(getpid()) + "_" + std::to_string(i);
      unlink(r.err.c_str());
      shm->result = 0;
      shm->case_start = 0;
      shm->nchoices = 0;
      shm->nspans = 0;
      shm->trace_len = 0;
      r.t0 = now_s();
      r.pid = fork();
      if (r.pid == 0) {
        child_setup();
        setpgid(0, 0);
        redirect_err(r.err);
        g_shm = shm;
        if (p.init) p.init();
        for (const auto& in : seqs[base + i]) {
          Ctx c{in, zero_after, seed, tracing};
          run_case(p, c);
          if (g_shm->result == 3) break;
        }
        _exit(0);
      }
    }
    size_t left = n;
    useconds_t nap = 100;
    while (left > 0) {
      for (size_t i = 0; i < n; ++i) {
        auto& r = runs[i];
        if (r.done) continue;
        double limit = p.hang_s * (seqs[base + i].size() > 1 ? 8 : 1);
        if (waitpid(r.pid, &r.status, WNOHANG) == r.pid) {
          r.done = true;
        } else if (now_s() - r.t0 > limit) {
          kill(-r.pid, SIGKILL);
          kill(r.pid, SIGKILL);
          waitpid(r.pid, &r.status, 0);
          r.done = r.hung = true;
        }
        if (r.done) {
          --left;
          kill(-r.pid, SIGKILL);
          Shm* shm = shms[i];
          auto& o = out[base + i];
          o.choices.assign(shm->choices, shm->choices + shm->nchoices);
          for (size_t k = 0; k < shm->nspans; ++k) o.spans.emplace_back(shm->spans[k][0], shm->spans[k][1]);
          o.trace.assign(shm->trace, shm->trace_len);
          if (r.hung) {
            o.result = 5;
            o.msg = "no result after " + std::to_string(limit) + " s (hang)";
          } else if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0 && shm->result != 0) {
            o.result = shm->result;
            o.msg = shm->msg;
          } else {
            o.result = 4;
            o.msg = crash_text(r.status, r.err);
          }
          unlink(r.err.c_str());
        }
      }
      if (left > 0) {
        usleep(nap);
        if (nap < 2000) nap += nap / 2;
      }
    }
  }
  return out;
}

Outcome exec_fresh(const Prop& p, const std::vector<std::vector<uint64_t>>& seq, bool zero_after, uint64_t seed,
                   bool tracing) {
  return exec_many(p, {seq}, zero_after, seed, tracing)[0];
}

// ---------------------------------------------------------------------------
// shrinking
using Choices = std::vector<uint64_t>;

bool simpler(const Choices& a, const Choices& b) {  // shortlex
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

struct Shrinker {
  const Prop& p;
  Outcome best;
  double t0, budget_s;
  size_t max_runs, runs = 0;
  std::unordered_set<uint64_t> tried;
  Shrinker(const Prop& p_, Outcome o, double b, size_t m)
      : p(p_), best(std::move(o)), t0(now_s()), budget_s(b), max_runs(m) {}
  bool spent() const { return runs >= max_runs || now_s() - t0 > budget_s; }

  // candidates in order of preference; keeps the simplest that still fails
  bool try_batch(const std::vector<Choices>& cands) {
    std::vector<std::vector<Choices>> todo;
    for (auto& c : cands)
      if (tried.insert(hash_choices(c.data(), c.size())).second) todo.push_back({c});
    if (todo.empty() || spent()) return false;
    runs += todo.size();
    auto os = exec_many(p, todo, true, 0, false);
    bool any = false;
    for (auto& o : os) {
      if (o.bad() && o.result == best.result && simpler(o.choices, best.choices)) {
        best = std::move(o);
        any = true;
      }
    }
    return any;
  }
  static Choices cut(const Choices& c, size_t b, size_t e) {
    Choices r(c.begin(), c.begin() + b);
    r.insert(r.end(), c.begin() + e, c.end());
    return r;
  }
  bool pass_spans() {
    bool progress = false, again = true;
    while (again && !spent()) {
      again = false;
      auto spans = best.spans;
      std::sort(spans.begin(), spans.end(),
                [](auto& a, auto& b) { return a.second - a.first > b.second - b.first; });
      std::vector<Choices> batch;
      for (size_t i = 0; i <= spans.size() && !spent(); ++i) {
        if (i < spans.size()) {
          auto s = spans[i];
          if (s.second > best.choices.size() || s.first >= s.second) continue;
          batch.push_back(cut(best.choices, s.first, s.second));
          if (s.first > 0) batch.push_back(cut(best.choices, s.first - 1, s.second));
        }
        if (batch.size() >= kPar || i == spans.size()) {
          bool ok = try_batch(batch);
          batch.clear();
          if (ok) {
            progress = again = true;
            break;
          }
        }
      }
    }
    return progress;
  }
  bool pass_chunks() {
    bool progress = false;
    size_t len = std::max<size_t>(1, best.choices.size() / 2);
    for (;; len /= 2) {
      size_t i = best.choices.size();
      while (i > 0 && !spent()) {
        std::vector<Choices> batch;
        size_t j = i;
        while (j > 0 && batch.size() < kPar) {
          if (j >= len) batch.push_back(cut(best.choices, j - len, j));
          j -= std::min(j, std::max<size_t>(1, len / 2));
        }
        if (try_batch(batch)) {
          progress = true;
          i = std::min(i, best.choices.size());
        } else {
          i = j;
        }
      }
      if (len == 1) break;
    }
    return progress;
  }
  bool pass_values() {
    bool progress = false;
    // zero runs of choices
    for (size_t len : {32, 8, 2, 1}) {
      for (size_t i = 0; i < best.choices.size() && !spent();) {
        std::vector<Choices> batch;
        size_t j = i;
        while (j < best.choices.size() && batch.size() < kPar) {
          Choices c = best.choices;
          bool nz = false;
          for (size_t k = j; k < std::min(j + len, c.size()); ++k) {
            nz = nz || c[k] != 0;
            c[k] = 0;
          }
          if (nz) batch.push_back(std::move(c));
          j += len;
        }
        if (try_batch(batch))
          progress = true;  // same place again
        else
          i = j;
      }
    }
    // lower single values
    for (size_t i = 0; i < best.choices.size() && !spent(); ++i) {
      for (int round = 0; round < 12 && !spent(); ++round) {
        if (i >= best.choices.size()) break;
        auto v = best.choices[i];
        if (v == 0) break;
        std::vector<Choices> batch;
        std::set<uint64_t> vals{v - 1, v / 2, v / 4 * 3, v / 8 * 7, v / 4, v / 16, 1, 2};
        for (auto x : vals)
          if (x < v) {
            Choices c = best.choices;
            c[i] = x;
            batch.push_back(std::move(c));
          }
        if (!try_batch(batch)) break;
        progress = true;
      }
    }
    return progress;
  }
};

Outcome shrink(const Prop& p, Outcome first, double budget_s, size_t max_runs, size_t* runs_out) {
  Shrinker s(p, std::move(first), budget_s, max_runs);
  while (!s.spent()) {
    bool a = s.pass_spans();
    bool b = s.pass_chunks();
    bool c = s.pass_values();
    if (!a && !b && !c) break;
  }
  if (runs_out) *runs_out = s.runs;
  return s.best;
}

// ---------------------------------------------------------------------------
struct WorkerStats {
  uint64_t evaluations = 0, discards = 0, checks = 0, guided = 0, corpus = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> nontrivial;
  std::vector<std::vector<uint64_t>> sample_choices;
};

struct Guide {
  std::vector<uint8_t> seen;
  std::vector<Choices> corpus;
  size_t total = 0;
  void init() {
    total = 0;
    for (size_t i = 0; i < g_nregions; ++i) total += g_regions[i].e - g_regions[i].b;
    seen.assign(total, 0);
  }
  NOSAN void reset() {
    for (size_t i = 0; i < g_nregions; ++i) memset(g_regions[i].b, 0, g_regions[i].e - g_regions[i].b);
  }
  NOSAN bool fresh() {
    bool any = false;
    size_t o = 0;
    for (size_t i = 0; i < g_nregions; ++i) {
      auto* b = g_regions[i].b;
      size_t n = g_regions[i].e - b;
      for (size_t j = 0; j < n; ++j) {
        if (b[j] != 0) {
          uint8_t v = b[j];
          uint8_t k = v >= 128 ? 128 : v >= 32 ? 64 : v >= 16 ? 32 : v >= 8 ? 16 : v >= 4 ? 8 : v == 3 ? 4 : v == 2 ? 2 : 1;
          if ((seen[o + j] & k) == 0) {
            seen[o + j] |= k;
            any = true;
          }
        }
      }
      o += n;
    }
    return any;
  }
  size_t edges() const {
    size_t n = 0;
    for (auto x : seen) n += x != 0;
    return n;
  }
};

Choices mutate(const Choices& base, const Choices& other, Rng& r) {
  Choices c = base;
  auto rounds = 1 + r.below(3);
  for (uint64_t k = 0; k < rounds; ++k) {
    switch (r.below(7)) {
      case 0:  // replace one with a random small
        if (!c.empty()) c[r.below(c.size())] = r.below(16);
        break;
      case 1:
        if (!c.empty()) c[r.below(c.size())] = r.next() >> r.below(64);
        break;
      case 2: {  // +-
        if (!c.empty()) {
          auto i = r.below(c.size());
          c[i] += r.below(2) != 0 ? 1 : -1;
        }
        break;
      }
      case 3:  // cut: rest is fresh
        if (!c.empty()) c.resize(r.below(c.size()));
        break;
      case 4:  // delete a chunk
        if (c.size() > 2) {
          auto i = r.below(c.size());
          auto n = 1 + r.below(std::min<size_t>(16, c.size() - i));
          c.erase(c.begin() + i, c.begin() + i + n);
        }
        break;
      case 5:  // duplicate a chunk
        if (!c.empty() && c.size() < 4096) {
          auto i = r.below(c.size());
          auto n = 1 + r.below(std::min<size_t>(32, c.size() - i));
          Choices chunk(c.begin() + i, c.begin() + i + n);
          auto reps = 1 + (r.below(4) == 0 ? r.below(16) : 0);
          for (uint64_t q = 0; q < reps; ++q) c.insert(c.begin() + i, chunk.begin(), chunk.end());
        }
        break;
      case 6:  // splice
        if (!other.empty() && !c.empty()) {
          c.resize(r.below(c.size()));
          auto i = r.below(other.size());
          c.insert(c.end(), other.begin() + i, other.end());
        }
        break;
    }
  }
  return c;
}

void write_stats(const WorkerStats& st, const std::string& path, size_t edges, size_t total_edges) {
  std::ofstream f(path);
  f << st.evaluations << ' ' << st.discards << ' ' << st.checks << ' ' << st.guided << ' ' << st.corpus << ' '
    << edges << ' ' << total_edges << '\n';
  f << st.labels.size() << '\n';
  for (auto& kv : st.labels) f << kv.second << ' ' << kv.first << '\n';
  f << st.nontrivial.size() << '\n';
  for (auto h : st.nontrivial) f << h << '\n';
  f << st.sample_choices.size() << '\n';
  for (auto& s : st.sample_choices) {
    f << s.size();
    for (auto v : s) f << ' ' << v;
    f << '\n';
  }
  f.flush();
}

struct Worker {
  pid_t pid = 0;
  Shm* shm = nullptr;
  std::string err, stats;
  bool done = false;
  int status = 0;
  bool hung = false;
};

uint64_t case_seed(uint64_t seed, const std::string& id, uint64_t idx) {
  uint64_t h = 1469598103934665603ULL;
  for (char ch : id) h = (h ^ static_cast<uint8_t>(ch)) * 1099511628211ULL;
  return mix(mix(seed, h), idx);
}


[[noreturn]] void worker_main(const Prop& p, int w, int nw, uint64_t cases, uint64_t seed, double deadline,
                              const std::string& stats_path, Shm* shm) {
  child_setup();
  g_shm = shm;
  g_dict_on = true;
  WorkerStats st;
  Guide guide;
  guide.init();
  Rng wr(case_seed(seed, p.id + "/worker", w));
  shm->case_start = now_s();  // a hang here counts too
  if (p.init && !p.isolate) p.init();
  shm->case_start = 0;
  std::vector<Choices> first_nontrivial;
  int bad_exit = 0;
  for (uint64_t i = w; i < cases; i += nw) {
    if (now_s() > deadline) break;
    Choices in;
    bool guided = false;
    if (p.guided && !p.isolate && !guide.corpus.empty() && wr.below(2) == 0) {
      guided = true;
      // favour recent corpus entries
      auto n = guide.corpus.size();
      auto k = wr.below(3) == 0 ? n - 1 - wr.below(std::min<size_t>(n, 8)) : wr.below(n);
      in = mutate(guide.corpus[k], guide.corpus[wr.below(n)], wr);
    }
    shm->case_idx = i;
    if (p.isolate) {
      fflush(nullptr);
      shm->result = 0;
      shm->nchoices = 0;
      auto pid = fork();
      if (pid == 0) {
        child_setup();
        setpgid(0, 0);
        if (p.init) p.init();
        Ctx c{in, false, case_seed(seed, p.id, i), false};
        run_case(p, c);
        _exit(0);
      }
      int status = 0;
      double t0 = now_s();
      useconds_t nap = 200;
      bool hung = false;
      for (;;) {
        auto r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (now_s() - t0 > p.hang_s) {
          hung = true;
          kill(-pid, SIGKILL);
          kill(pid, SIGKILL);
          waitpid(pid, &status, 0);
          break;
        }
        usleep(nap);
        if (nap < 5000) nap += nap / 2;
      }
      kill(-pid, SIGKILL);
      if (hung) {
        bad_exit = 5;
      } else if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0 && shm->result != 0)) {
        bad_exit = 4;
      }
      if (bad_exit != 0) break;
    } else {
      if (p.guided) guide.reset();
      Ctx c{in, false, case_seed(seed, p.id, i), false};
      run_case(p, c);
      if (p.guided && shm->result == 1 && guide.fresh()) {
        if (shm->nchoices <= 4096) {
          guide.corpus.emplace_back(shm->choices, shm->choices + shm->nchoices);
          if (guide.corpus.size() > 2000) guide.corpus.erase(guide.corpus.begin() + wr.below(1000));
        }
      }
    }
    ++st.evaluations;
    st.guided += guided;
    shm->cases_done = st.evaluations;
    st.checks += shm->checks;
    if (shm->result == 2) ++st.discards;
    {
      const char* l = shm->labels;
      while (*l) {
        const char* e = strchr(l, '\n');
        if (!e) break;
        ++st.labels[std::string(l, e)];
        l = e + 1;
      }
    }
    if (shm->nontrivial && shm->result == 1) {
      auto h = hash_choices(shm->choices, shm->nchoices);
      if (st.nontrivial.insert(h).second && st.sample_choices.size() < 2 && shm->nchoices < 3000)
        st.sample_choices.emplace_back(shm->choices, shm->choices + shm->nchoices);
    }
    if (shm->result == 3) {
      bad_exit = 3;
      break;
    }
  }
  st.corpus = guide.corpus.size();
  write_stats(st, stats_path, guide.edges(), guide.total);
  _exit(bad_exit == 0 ? 0 : 70 + bad_exit);
}

std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 32 || ch >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += ch;
    }
  }
  return o + "\"";
}

std::string first_lines(const std::string& s, size_t n) { return s.size() > n ? s.substr(0, n) + " ..." : s; }

}  // namespace

static std::vector<Known>& knowns() {
  static std::vector<Known> k;
  return k;
}
KnownReg::KnownReg(Known k) { knowns().emplace_back(std::move(k)); }

// 1: still there, 0: no longer
static int run_known(const std::string& key) {
  for (auto& k : knowns()) {
    if (k.key != key) continue;
    fflush(nullptr);
    auto pid = fork();
    if (pid == 0) {
      if (freopen("/dev/null", "w", stderr) == nullptr) _exit(3);
      k.fn();
      _exit(0);
    }
    auto end = now_s() + k.seconds;
    int status = 0;
    while (now_s() < end) {
      if (waitpid(pid, &status, WNOHANG) == pid) return WIFEXITED(status) && WEXITSTATUS(status) == 0 ? 0 : 1;
      usleep(5000);
    }
    kill(pid, SIGKILL);
    waitpid(pid, &status, 0);
    return 1;
  }
  return 2;
}

void register_prop(Prop p) { props().emplace_back(std::move(p)); }

void Ctx::record(uint64_t v) {
  auto n = g_shm->nchoices;
  if (n < kMaxChoices) {
    g_shm->choices[n] = v;
    g_shm->nchoices = n + 1;
  } else {
    exhausted_zero_ = true;
    in_.clear();
  }
}
void Ctx::end_span(size_t start) {
  auto n = g_shm->nspans;
  if (n < kMaxSpans && pos_ > start) {
    g_shm->spans[n][0] = static_cast<uint32_t>(start);
    g_shm->spans[n][1] = static_cast<uint32_t>(pos_);
    g_shm->nspans = n + 1;
  }
}
void Ctx::add_trace(const std::string& s) {
  size_t left = sizeof g_shm->trace - g_shm->trace_len;
  size_t n = std::min(left, s.size() + 1);
  if (n < 2) return;
  memcpy(g_shm->trace + g_shm->trace_len, s.data(), n - 1);
  g_shm->trace[g_shm->trace_len + n - 1] = '\n';
  g_shm->trace_len = g_shm->trace_len + n;
}

int64_t Ctx::size(int64_t lo, int64_t hi) {
  auto n = static_cast<uint64_t>(hi - lo) + 1;
  auto v = draw_with(n, [&](Rng& r) -> uint64_t {
    switch (r.below(6)) {
      case 0:
        return r.below(n);
      case 1: {  // a constant of the program, or next to one
        bool ok = false;
        auto d = dict_pick(r, &ok);
        if (ok) {
          auto x = static_cast<int64_t>(d) + static_cast<int64_t>(r.below(3)) - 1;
          if (x >= lo && x <= hi) return static_cast<uint64_t>(x - lo);
        }
        return r.below(std::min<uint64_t>(n, 16));
      }
      case 2: {  // around powers of two
        auto x = static_cast<int64_t>(uint64_t{1} << r.below(40)) + static_cast<int64_t>(r.below(3)) - 1;
        if (x >= lo && x <= hi) return static_cast<uint64_t>(x - lo);
        return r.below(std::min<uint64_t>(n, 64));
      }
      case 3:
        return r.below(std::min<uint64_t>(n, 64));
      default:
        return r.below(std::min<uint64_t>(n, 8));
    }
  });
  return lo + static_cast<int64_t>(v);
}

double Ctx::number(bool neg) {
  // encoded as a kind and an integer so that it shrinks
  double v = 0;
  switch (weighted({6, 4, 3, 3, 2, 2})) {
    case 0:
      v = static_cast<double>(draw(20));
      break;
    case 1:
      v = static_cast<double>(draw(100000)) / 100.0;
      break;
    case 2:
      v = static_cast<double>(size(0, int64_t{1} << 40));
      break;
    case 3:
      v = static_cast<double>(draw(1000000000)) * std::pow(10.0, static_cast<double>(range(-12, 9)));
      break;
    case 4:
      v = static_cast<double>(draw(uint64_t{1} << 53)) / static_cast<double>(uint64_t{1} << draw(60));
      break;
    case 5:
      v = std::ldexp(1.0 + static_cast<double>(draw(1024)) / 1024.0, static_cast<int>(range(-40, 40)));
      break;
  }
  if (neg && chance(1, 4)) v = -v;
  return v;
}

std::string quote(std::string_view s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", ch);
      o += b;
    } else {
      if (ch == '"' || ch == '\\') o += '\\';
      o += ch;
    }
    if (o.size() > 400) {
      o += "...(" + std::to_string(s.size()) + " bytes)";
      break;
    }
  }
  return o + "\"";
}
std::string dstr(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

// tries: how often to run it until it fails, for a failure that depends on the real schedule
// a property may have a second stage, named "<id>+<stage>"
std::string public_id(const Prop& p) { return p.id.substr(0, p.id.find('+')); }

static std::string save_replay(const Prop& p, const std::string& dir, const std::vector<Choices>& seq,
                               const Outcome& o, int tries = 1) {
  ::mkdir(dir.c_str(), 0755);
  uint64_t h = 0;
  for (auto& s : seq) h = mix(h, hash_choices(s.data(), s.size()));
  char name[64];
  snprintf(name, sizeof name, "%s-%016llx.replay", p.id.c_str(), static_cast<unsigned long long>(h));
  auto path = dir + "/" + name;
  std::ofstream f(path);
  f << "property " << p.id << "\ncases " << seq.size() << "\n";
  for (auto& s : seq) {
    f << s.size();
    for (auto v : s) f << ' ' << v;
    f << '\n';
  }
  f << "tries " << tries << "\n";
  f << "# " ;
  for (char ch : o.msg) {
    f << ch;
    if (ch == '\n') f << "# ";
  }
  f << "\n# --- the case ---\n# ";
  for (char ch : o.trace) {
    f << ch;
    if (ch == '\n') f << "# ";
  }
  f << "\n";
  return path;
}

static int replay(const Prop& p, const std::string& path) {
  std::ifstream f(path);
  std::string w, id;
  size_t n = 0;
  f >> w >> id >> w >> n;
  if (!f || id != p.id || n == 0) {
    std::cerr << "no replay file of " << p.id << ": " << path << std::endl;
    return 2;
  }
  std::vector<Choices> seq(n);
  for (auto& s : seq) {
    size_t k = 0;
    f >> k;
    s.resize(k);
    for (auto& v : s) f >> v;
  }
  int tries = 1;
  if (!(f >> w >> tries) || w != "tries") tries = 1;
  auto o = exec_fresh(p, seq, true, 0, true);
  for (int i = 1; i < tries && !o.bad(); ++i) o = exec_fresh(p, seq, true, 0, true);
  std::cout << o.trace << std::endl;
  if (o.bad()) {
    std::cout << o.msg << "\nVIOLATION property=" << public_id(p) << " replay=" << path << std::endl;
    return 1;
  }
  std::cout << "no violation" << std::endl;
  return 0;
}

int engine_main(int argc, char** argv) {
  std::map<std::string, std::string> opt;
  for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
  const Prop* pp = nullptr;
  for (auto& p : props())
    if (p.id == opt["--prop"]) pp = &p;
  if (!pp) {
    std::cerr << "no such property " << opt["--prop"] << "\n";
    return 2;
  }
  const Prop& p = *pp;
  signal(SIGPIPE, SIG_IGN);
  g_scratch = opt.count("--scratch") ? opt["--scratch"] : "/tmp";
  if (opt.count("--known")) return run_known(opt["--known"]);
  if (opt.count("--replay")) return replay(p, opt["--replay"]);

  bool thorough = opt["--tier"] == "thorough";
  uint64_t seed = opt.count("--seed") ? strtoull(opt["--seed"].c_str(), nullptr, 10) : 1;
  uint64_t cases = thorough ? p.thorough_cases : p.quick_cases;
  if (opt.count("--cases")) cases = strtoull(opt["--cases"].c_str(), nullptr, 10);
  double cap = thorough ? p.thorough_cap_s : p.quick_cap_s;
  if (opt.count("--cap")) cap = atof(opt["--cap"].c_str());
  double t0 = now_s();
  double deadline = t0 + cap;
  int nw = std::max(1, p.workers);
  if (opt.count("--workers")) nw = atoi(opt["--workers"].c_str());
  std::vector<Worker> ws(nw);
  fflush(nullptr);
  for (int w = 0; w < nw; ++w) {
    ws[w].shm = new_shm();
    ws[w].err = g_scratch + "/err_" + std::to_string(w);
    ws[w].stats = g_scratch + "/stats_" + std::to_string(w);
    auto pid = fork();
    if (pid == 0) {
      redirect_err(ws[w].err);
      worker_main(p, w, nw, cases, seed, deadline, ws[w].stats, ws[w].shm);
    }
    ws[w].pid = pid;
  }
  // supervise
  int bad_worker = -1;
  int bad_kind = 0;
  int live = nw;
  while (live > 0) {
    for (int w = 0; w < nw; ++w) {
      auto& k = ws[w];
      if (k.done) continue;
      int status = 0;
      auto r = waitpid(k.pid, &status, WNOHANG);
      if (r == k.pid) {
        k.done = true;
        k.status = status;
        --live;
        bool clean = WIFEXITED(status) && WEXITSTATUS(status) == 0;
        if (!clean && bad_worker < 0) {
          bad_worker = w;
          bad_kind = WIFEXITED(status) && WEXITSTATUS(status) >= 73 && WEXITSTATUS(status) <= 75
                         ? WEXITSTATUS(status) - 70
                         : 4;
        }
        continue;
      }
      double st = k.shm->case_start;
      if (!p.isolate && st > 0 && now_s() - st > p.hang_s) {
        kill(k.pid, SIGKILL);
        waitpid(k.pid, &status, 0);
        k.done = true;
        k.hung = true;
        --live;
        if (bad_worker < 0) {
          bad_worker = w;
          bad_kind = 5;
        }
      }
    }
    if (bad_worker >= 0) {
      for (auto& k : ws)
        if (!k.done) {
          kill(k.pid, SIGKILL);
          waitpid(k.pid, nullptr, 0);
          k.done = true;
          --live;
        }
    }
    usleep(2000);
  }

  int rc = 0;
  std::string violation_msg;
  uint64_t inconclusive = 0;
  std::string note, unconfirmed;
  if (bad_worker >= 0) {
    auto& k = ws[bad_worker];
    Choices ch(k.shm->choices, k.shm->choices + k.shm->nchoices);
    Outcome first;
    first.result = bad_kind;
    first.msg = bad_kind == 3 ? k.shm->msg
                : bad_kind == 5 ? "hang"
                                : crash_text(k.status, k.err);
    first.choices = ch;
    std::cout << "worker " << bad_worker << " case " << k.shm->case_idx << ": " << first_lines(first.msg, 2000)
              << std::endl;
    int again = 0, tries = bad_kind == 5 ? 2 : 3;
    Outcome rep;
    for (int i = 0; i < tries; ++i) {
      auto o = exec_fresh(p, {ch}, true, 0, false);
      if (o.bad()) {
        ++again;
        rep = o;
      }
    }
    std::vector<Choices> seq, history;
    int replay_tries = 1;
    if (again > 0) {
      size_t runs = 0;
      Outcome small = rep;
      if (bad_kind != 5) small = shrink(p, rep, thorough ? 120 : 40, 20000, &runs);
      // confirm the minimal case in fresh processes
      int ok = 0;
      int need = bad_kind == 5 ? 1 : 3;
      for (int i = 0; i < need; ++i) ok += exec_fresh(p, {small.choices}, true, 0, false).bad();
      if (ok == need) {
        seq = {small.choices};
        std::cout << "shrunk from " << ch.size() << " to " << small.choices.size() << " choices in " << runs
                  << " runs" << std::endl;
      } else if (again == tries) {
        seq = {ch};
      } else {
        note = "failure reproduced only " + std::to_string(again) + "/" + std::to_string(tries) + " times";
        // a real but schedule dependent failure: look harder
        int hits = 0;
        for (int i = 0; i < 20 && hits < 3; ++i) hits += exec_fresh(p, {ch}, true, 0, false).bad();
        if (hits >= 3) {
          seq = {ch};
          replay_tries = 50;
        }
      }
    } else if (!p.isolate) {
      // depends on the process's earlier cases: replay this worker's stream
      std::cout << "not reproducible from a fresh process; replaying the worker's history" << std::endl;
      Shm* shm2 = new_shm();
      auto upto = k.shm->case_idx;
      auto hist_path = g_scratch + "/history";
      auto pid = fork();
      if (pid == 0) {
        // re-run the same stream, dumping the choices of every case
        child_setup();
        redirect_err(g_scratch + "/err_hist");
        g_shm = shm2;
        g_dict_on = true;
        Guide guide;
        guide.init();
        Rng wr(case_seed(seed, p.id + "/worker", bad_worker));
        if (p.init) p.init();
        int fd = open(hist_path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        for (uint64_t i = bad_worker; i <= upto; i += nw) {
          Choices in;
          if (p.guided && !guide.corpus.empty() && wr.below(2) == 0) {
            auto n = guide.corpus.size();
            auto kk = wr.below(3) == 0 ? n - 1 - wr.below(std::min<size_t>(n, 8)) : wr.below(n);
            in = mutate(guide.corpus[kk], guide.corpus[wr.below(n)], wr);
          }
          if (p.guided) guide.reset();
          Ctx c{in, false, case_seed(seed, p.id, i), false};
          run_case(p, c);
          uint64_t nn = shm2->nchoices;
          if (write(fd, &nn, 8) != 8 || write(fd, shm2->choices, nn * 8) != static_cast<ssize_t>(nn * 8)) _exit(9);
          if (p.guided && shm2->result == 1 && guide.fresh() && shm2->nchoices <= 4096) {
            guide.corpus.emplace_back(shm2->choices, shm2->choices + shm2->nchoices);
            if (guide.corpus.size() > 2000) guide.corpus.erase(guide.corpus.begin() + wr.below(1000));
          }
          if (shm2->result == 3) _exit(73);
        }
        _exit(0);
      }
      int status = 0;
      double h0 = now_s();
      while (waitpid(pid, &status, WNOHANG) != pid) {
        if (now_s() - h0 > 150) {
          kill(pid, SIGKILL);
          waitpid(pid, &status, 0);
          break;
        }
        usleep(2000);
      }
      std::vector<Choices> hist;
      {
        std::ifstream f(hist_path, std::ios::binary);
        uint64_t nn = 0;
        while (f.read(reinterpret_cast<char*>(&nn), 8)) {
          Choices c(nn);
          f.read(reinterpret_cast<char*>(c.data()), nn * 8);
          hist.emplace_back(std::move(c));
        }
      }
      if (!(WIFEXITED(status) && WEXITSTATUS(status) == 73)) hist.emplace_back(ch);
      double r0 = now_s();
      auto bad = [&](const std::vector<Choices>& s) { return exec_fresh(p, s, true, 0, false).bad(); };
      if (bad(hist) && bad(hist)) {
        // drop history from the front, halving
        seq = hist;
        size_t step = seq.size() / 2;
        while (step > 0 && now_s() - r0 < 60) {
          if (seq.size() > step) {
            std::vector<Choices> cand(seq.begin() + step, seq.end());
            if (bad(cand)) {
              seq = cand;
              continue;
            }
          }
          step /= 2;
        }
        if (!bad(seq)) seq = hist;
      } else {
        note = "failure not reproducible from the recorded history";
        history = hist;
        // it may depend on the schedule of real threads: look harder
        if (bad_kind != 5) {
          double t1 = now_s();
          int hits = 0;
          for (int i = 0; i < 200 && hits < 3 && now_s() - t1 < 30; ++i) {
            auto o = exec_fresh(p, {ch}, true, 0, false);
            if (o.bad()) {
              ++hits;
              rep = o;
            }
          }
          if (hits >= 3) {
            seq = {ch};
            replay_tries = 200;
          }
        }
      }
    } else {
      int hits = 0;
      for (int i = 0; i < 20 && hits < 3; ++i) hits += exec_fresh(p, {ch}, true, 0, false).bad();
      if (hits >= 3) {
        seq = {ch};
        replay_tries = 50;
      }
      note = "failure not reproducible (isolated case)";
    }
    if (!seq.empty()) {
      auto fin = exec_fresh(p, seq, true, 0, true);
      for (int i = 0; i < std::max(1, replay_tries) && !fin.bad(); ++i) fin = exec_fresh(p, seq, true, 0, true);
      if (!fin.bad()) {
        fin.msg = first.msg;
      }
      auto path = save_replay(p, opt.count("--replays") ? opt["--replays"] : g_scratch, seq, fin, replay_tries);
      violation_msg = fin.msg;
      std::cout << "--- minimal failing case ---\n"
                << first_lines(fin.trace, 6000) << "\n--- " << first_lines(fin.msg, 3000) << "\n";
      std::cout << "VIOLATION property=" << public_id(p) << " replay=" << path << std::endl;
      rc = 1;
    } else {
      ++inconclusive;
      std::cout << "INCONCLUSIVE: " << note << std::endl;
      rc = 3;
      // a hang may be the machine's; check.py decides about the others
      if (bad_kind != 5) {
        if (history.empty() || history.size() > 200) history = {ch};
        unconfirmed = save_replay(p, opt.count("--replays") ? opt["--replays"] : g_scratch, history, first, 200);
      }
    }
  }

  // merge statistics
  WorkerStats all;
  uint64_t edges = 0, total_edges = 0;
  for (auto& k : ws) {
    std::ifstream f(k.stats);
    uint64_t a = 0, b = 0, c = 0, g = 0, co = 0, e = 0, te = 0;
    if (!(f >> a >> b >> c >> g >> co >> e >> te)) {
      all.evaluations += k.shm->cases_done;
      continue;
    }
    all.evaluations += a;
    all.discards += b;
    all.checks += c;
    all.guided += g;
    all.corpus += co;
    edges = std::max(edges, e);
    total_edges = std::max(total_edges, te);
    size_t n = 0;
    f >> n;
    for (size_t i = 0; i < n; ++i) {
      uint64_t cnt = 0;
      std::string l;
      f >> cnt;
      f.get();
      std::getline(f, l);
      all.labels[l] += cnt;
    }
    f >> n;
    for (size_t i = 0; i < n; ++i) {
      uint64_t h = 0;
      f >> h;
      all.nontrivial.insert(h);
    }
    f >> n;
    for (size_t i = 0; i < n; ++i) {
      size_t m = 0;
      f >> m;
      Choices s(m);
      for (auto& v : s) f >> v;
      if (all.sample_choices.size() < 4) all.sample_choices.emplace_back(std::move(s));
    }
  }
  std::vector<std::string> samples;
  for (auto& s : all.sample_choices) {
    auto o = exec_fresh(p, {s}, true, 0, true);
    if (o.result == 1) samples.emplace_back(first_lines(o.trace, 1500));
    if (samples.size() >= 3) break;
  }
  double wall = now_s() - t0;
  if (opt.count("--out")) {
    std::ofstream f(opt["--out"]);
    f << "{\"evaluations\": " << all.evaluations << ", \"planned\": " << cases
      << ", \"distinct_nontrivial\": " << all.nontrivial.size() << ", \"discarded\": " << all.discards
      << ", \"assertions\": " << all.checks << ", \"coverage_guided_cases\": " << all.guided
      << ", \"corpus\": " << all.corpus << ", \"edges_covered_best_worker\": " << edges
      << ", \"edges_total\": " << total_edges << ", \"inconclusive\": " << inconclusive
      << ", \"rule\": " << json_str(p.rule) << ", \"labels\": {";
    bool firstl = true;
    for (auto& kv : all.labels) {
      f << (firstl ? "" : ", ") << json_str(kv.first) << ": " << kv.second;
      firstl = false;
    }
    f << "}, \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) f << (i ? ", " : "") << json_str(samples[i]);
    f << "], \"assumptions\": [";
    for (size_t i = 0; i < p.assumptions.size(); ++i) f << (i ? ", " : "") << json_str(p.assumptions[i]);
    f << "], \"unconfirmed\": " << json_str(unconfirmed) << ", \"violation\": " << json_str(violation_msg) << ", \"wall_s\": " << wall << "}\n";
  }
  std::cout << p.id << ": " << all.evaluations << "/" << cases << " cases, " << all.nontrivial.size()
            << " distinct non-trivial, " << all.checks << " assertions, " << all.guided << " coverage-guided, edges "
            << edges << "/" << total_edges << ", " << wall << " s" << std::endl;
  for (auto& kv : all.labels) std::cout << "   " << kv.first << ": " << kv.second << "\n";
  return rc;
}

}  // namespace vf

int main(int argc, char** argv) { return vf::engine_main(argc, argv); }
