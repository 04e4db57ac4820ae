#include "schedrun.h"
#include "vclock.h"

#include "absl/synchronization/blocking_counter.h"
#include "absl/synchronization/mutex.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>

namespace sched {
namespace {

constexpr int kMaxThreads = 32;
constexpr int64_t kNever = INT64_MAX;

struct VC {
  uint32_t c[kMaxThreads] = {};
  void join(const VC& o) {
    for (int i = 0; i < kMaxThreads; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum State { Runnable, Blocked, Polling, Done };

struct Thread {
  int id = 0;
  State state = Runnable;
  const void* on = nullptr;  // what it is blocked on
  int64_t deadline = kNever;
  bool timed_out = false;
  std::atomic<int> baton{0};
  uintptr_t lo = 0, hi = 0;  // its stack
  VC vc;
  pthread_t handle{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  bool joined = false;
};

thread_local Thread* t_self = nullptr;
thread_local int t_in = 0;  // inside the runtime

struct In {
  In() { ++t_in; }
  ~In() { --t_in; }
};

struct Sync {
  VC vc;
  bool any = false;
};
struct Lock {
  int owner = -1;
  int depth = 0;
  uint64_t readers = 0;  // the threads that hold it for reading
  VC vc;                 // what a writer released
  VC read_vc;            // what the readers released since
};

struct Entry {
  uint32_t epoch = 0;
  uint8_t tid = 0, mask = 0, flags = 0;  // 1 write, 2 atomic, 4 free
  const void* pc = nullptr;
};
struct Cell {
  uintptr_t key = 0;
  uint32_t gen = 0;
  uint8_t n = 0;
  int8_t first = -1;
  bool shared = false;
  Entry e[4];
};
constexpr size_t kCells = 1 << 20;

struct World {
  bool on = false;       // run() is active
  bool exploring = false;
  Plan plan;
  size_t next_preempt = 0, next_pick = 0;
  bool waiting_for_wake = false;
  uint64_t left = 0;     // points until the next preemption
  uint64_t since_switch = 0;
  Thread* threads[kMaxThreads] = {};
  int n = 0;
  int current = 0;
  const char* no_timeouts = nullptr;
  Result res;
  std::unordered_map<const void*, Lock> locks;
  std::unordered_map<const void*, Sync> syncs;
  std::unordered_map<const void*, int> guards;
  std::vector<void*> freed;
  size_t freed_bytes = 0;
  Cell* cells = nullptr;
  uint32_t gen = 0;
  size_t used = 0;
};
World* g = nullptr;  // never destroyed

template <typename F>
F next(const char* name) {
  static_assert(sizeof(F) == sizeof(void*));
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) {
    static const char m[] = "sched: a function is missing\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(98);
  }
  F f;
  memcpy(&f, &p, sizeof f);
  return f;
}

bool controlled() { return g && g->on && t_self && t_in == 0; }

long futex(std::atomic<int>* a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }

void wait_baton(Thread* t) {
  while (t->baton.load(std::memory_order_acquire) == 0) futex(&t->baton, FUTEX_WAIT_PRIVATE, 0);
  t->baton.store(0, std::memory_order_relaxed);
}
void give_baton(Thread* t) {
  t->baton.store(1, std::memory_order_release);
  futex(&t->baton, FUTEX_WAKE_PRIVATE, 1);
}

void die(const std::string& why) {
  (void)!write(2, why.data(), why.size());
  (void)!write(2, "\n", 1);
  _exit(97);
}

std::string where(const void* pc) {
  Dl_info i{};
  if (!dladdr(pc, &i) || !i.dli_sname) return "?";
  int st = 0;
  char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
  std::string s = d && st == 0 ? d : i.dli_sname;
  free(d);
  if (s.size() > 160) s.resize(160);
  return s;
}

void failure(const std::string& m) {
  if (g->res.failure.empty()) g->res.failure = m;
}

void time_out(Thread* t) {
  t->state = Runnable;
  t->timed_out = true;
  t->deadline = kNever;
  t->on = nullptr;
  ++g->res.timeouts;
  if (g->res.timeouts > 20000) die("the threads never come to an end");
}

// timed waits whose time has come
int wake_due() {
  int n = 0;
  for (int i = 0; i < g->n; ++i) {
    auto* t = g->threads[i];
    if (t->state == Blocked && t->deadline <= vf::vnow()) {
      time_out(t);
      ++n;
    }
  }
  return n;
}

// who runs next; -1: nobody can
int choose(uint32_t pick, int except) {
  wake_due();
  int k = 0;
  for (int i = 0; i < g->n; ++i)
    if (i != except && g->threads[i]->state == Runnable) ++k;
  if (k == 0) return -1;
  auto w = static_cast<int>(pick % static_cast<uint32_t>(k));
  for (int i = 0; i < g->n; ++i)
    if (i != except && g->threads[i]->state == Runnable && w-- == 0) return i;
  return -1;
}

uint32_t next_pick() {
  if (g->plan.picks.empty()) return 0;
  return g->plan.picks[g->next_pick++ % g->plan.picks.size()];
}

std::string states() {
  std::string s;
  for (int i = 0; i < g->n; ++i) {
    auto* t = g->threads[i];
    char b[96];
    snprintf(b, sizeof b, " t%d=%s@%p", i, t->state == Runnable ? "runnable" : t->state == Blocked ? "blocked" : t->state == Polling ? "polling" : "done", t->on);
    s += b;
  }
  return s;
}

// nobody can run: let the earliest timed wait run out
int idle() {
  for (int round = 0;; ++round) {
    // threads that poll file descriptors look again
    bool polling = false;
    for (int i = 0; i < g->n; ++i)
      if (g->threads[i]->state == Polling) {
        g->threads[i]->state = Runnable;
        polling = true;
      }
    if (polling && round == 0) return choose(next_pick(), -1);
    Thread* best = nullptr;
    for (int i = 0; i < g->n; ++i) {
      auto* t = g->threads[i];
      if (t->state == Blocked && t->deadline != kNever && (!best || t->deadline < best->deadline)) best = t;
    }
    if (!best) die("deadlock: every thread waits for ever:" + states());
    if (g->no_timeouts) {
      failure(std::string("a timed wait had to run out ") + g->no_timeouts);
    }
    vf::vclock_set(best->deadline);
    if (wake_due() > 1 && g->waiting_for_wake) {
      g->waiting_for_wake = false;
      g->left = g->plan.preempt[g->next_preempt].gap;
    }
    return choose(next_pick(), -1);
  }
}

void switch_to(int id) {
  auto* me = t_self;
  if (id == me->id) return;
  ++g->res.switches;
  g->since_switch = 0;
  g->current = id;
  auto* to = g->threads[id];
  bool wait = me->state != Done;
  give_baton(to);
  if (wait) wait_baton(me);
}

// the running thread cannot go on
void blocked() {
  int id = choose(next_pick(), -1);
  if (id < 0) id = idle();
  switch_to(id);
}

void block_on(const void* what, int64_t deadline = kNever) {
  auto* me = t_self;
  me->state = Blocked;
  me->on = what;
  me->deadline = deadline;
  me->timed_out = false;
  blocked();
  me->deadline = kNever;
  me->on = nullptr;
}

void wake(const void* what, int max) {
  for (int i = 0; i < g->n && max > 0; ++i) {
    auto* t = g->threads[i];
    if (t->state == Blocked && t->on == what) {
      t->state = Runnable;
      t->on = nullptr;
      t->deadline = kNever;
      --max;
    }
  }
}

void load_gap() {
  auto& v = g->plan.preempt;
  bool more = g->next_preempt < v.size();
  g->waiting_for_wake = more && v[g->next_preempt].at_wake;
  g->left = more && !g->waiting_for_wake ? v[g->next_preempt].gap : UINT64_MAX;
}

void preempt() {
  auto pick = g->plan.preempt[g->next_preempt++].who;
  load_gap();
  int id = choose(pick, t_self->id);
  if (id < 0) {
    bool polling = false;
    for (int i = 0; i < g->n; ++i)
      if (g->threads[i]->state == Polling) {
        g->threads[i]->state = Runnable;
        polling = true;
      }
    if (!polling) return;
    id = choose(pick, t_self->id);
    if (id < 0) return;
  }
  ++g->res.preemptions;
  switch_to(id);
}

// a place where the running thread may be preempted
void point(bool counts, bool wait = false) {
  ++g->res.points;
  if (g->plan.mode == Plan::Waits) counts = wait;
  if (!g->exploring) return;
  if (++g->since_switch > 300000) {  // it may spin
    int id = choose(next_pick(), t_self->id);
    g->since_switch = 0;
    if (g->res.points > 200000000) die("the threads never come to an end");
    if (id >= 0) switch_to(id);
    return;
  }
  if (!counts || g->left == UINT64_MAX) return;
  if (g->left > 0) {
    --g->left;
    return;
  }
  preempt();
}

// ---- happens before -------------------------------------------------------
void tick() { ++t_self->vc.c[t_self->id]; }
void acquire_from(const VC& v) { t_self->vc.join(v); }
void release_to(VC* v) {
  v->join(t_self->vc);
  tick();
}

Cell* cell(uintptr_t key) {
  auto h = (((key >> 3) * 0x9e3779b97f4a7c15ULL) >> 36 << 3) + (key & 7);  // neighbours lie together
  for (size_t i = 0; i < 64; ++i) {
    auto& c = g->cells[(h + i) & (kCells - 1)];
    if (c.gen == g->gen && c.key == key) return &c;
    if (c.gen != g->gen) {
      if (g->used > kCells / 2) return nullptr;
      ++g->used;
      c.gen = g->gen;
      c.key = key;
      c.n = 0;
      c.first = -1;
      c.shared = false;
      return &c;
    }
  }
  return nullptr;
}

bool on_stack(uintptr_t a) { return a >= t_self->lo && a < t_self->hi; }

void check_cell(Cell* c, uint8_t mask, uint8_t flags, const void* pc) {
  auto* me = t_self;
  if (c->first < 0)
    c->first = static_cast<int8_t>(me->id);
  else if (c->first != me->id)
    c->shared = true;
  if (!g->plan.races) return;
  int slot = -1;
  for (int i = 0; i < c->n; ++i) {
    auto& e = c->e[i];
    if ((e.mask & mask) == 0) continue;
    if (e.flags & 4) {
      failure("use of freed memory in " + where(pc) + " (freed in " + where(e.pc) + ")");
      continue;
    }
    if (e.tid == me->id) {
      if (e.mask == mask && ((e.flags ^ flags) & 3) == 0) slot = i;
      continue;
    }
    if (((e.flags | flags) & 1) == 0) continue;       // two reads
    if ((e.flags & flags & 2) != 0) continue;         // both atomic
    if (e.epoch <= me->vc.c[e.tid]) continue;         // ordered
    failure(std::string("data race: ") + ((flags & 1) ? "write" : "read") + " in " + where(pc) + " against " +
            ((e.flags & 1) ? "write" : "read") + " in " + where(e.pc));
  }
  if (slot < 0) {
    if (c->n < 4) {
      slot = c->n++;
    } else {
      // an entry that cannot tell more than this one, else any read
      for (int i = 0; i < 4 && slot < 0; ++i)
        if (c->e[i].epoch <= me->vc.c[c->e[i].tid] && (c->e[i].mask & ~mask) == 0) slot = i;
      for (int i = 0; i < 4 && slot < 0; ++i)
        if ((c->e[i].flags & 1) == 0) slot = i;
      if (slot < 0) slot = 0;
    }
  }
  auto& e = c->e[slot];
  e.tid = static_cast<uint8_t>(me->id);
  e.epoch = me->vc.c[me->id];
  e.mask = mask;
  e.flags = flags;
  e.pc = pc;
}

void access(const void* p, size_t n, bool write, const void* pc) {
  if (!controlled()) return;
  auto a = reinterpret_cast<uintptr_t>(p);
  if (on_stack(a)) return;
  In in;
  bool counts = g->plan.mode == Plan::All;
  if (g->plan.mode == Plan::Shared) {
    auto* c = cell(a >> 3);
    counts = c && c->shared;
  }
  point(counts);
  bool big = n > 1024;  // samples of a large block will do
  while (n > 0) {
    auto off = a & 7;
    if (big && n > 128 && off == 0) {
      if (auto* c = cell(a >> 3)) check_cell(c, 0xff, write ? 1 : 0, pc);
      a += 64;
      n -= 64;
      continue;
    }
    auto k = n < 8 - off ? n : 8 - off;
    if (auto* c = cell(a >> 3)) check_cell(c, static_cast<uint8_t>(((1u << k) - 1) << off), write ? 1 : 0, pc);
    a += k;
    n -= k;
  }
}

// around an atomic operation, which is done in between
struct Atomic {
  bool ok;
  const void* p;
  int mo;
  int kind;  // 0 load, 1 store, 2 read-modify-write
  Atomic(const volatile void* vp, size_t n, int kind_, int mo_, const void* pc) : ok(controlled()), p(const_cast<const void*>(vp)), mo(mo_), kind(kind_) {
    if (!ok) return;
    In in;
    auto a = reinterpret_cast<uintptr_t>(p);
    point(!on_stack(a));
    if (!on_stack(a))
      if (auto* c = cell(a >> 3)) check_cell(c, static_cast<uint8_t>(((1u << n) - 1) << (a & 7)), static_cast<uint8_t>(kind == 0 ? 2 : 3), pc);
  }
  ~Atomic() {
    if (!ok) return;
    In in;
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if (kind == 0) {
      if (acq) {
        auto it = g->syncs.find(p);
        if (it != g->syncs.end()) acquire_from(it->second.vc);
      }
      return;
    }
    auto& s = g->syncs[p];
    if (kind == 2) {
      if (acq) acquire_from(s.vc);
      if (rel) release_to(&s.vc);
    } else if (rel) {
      s.vc = VC{};
      release_to(&s.vc);
    } else {
      s.vc = VC{};
    }
  }
};

// ---- locks ------------------------------------------------------------------
uint64_t my_bit() { return uint64_t{1} << t_self->id; }
bool may_write(const Lock& l, bool recursive) { return l.readers == 0 && (l.owner < 0 || (recursive && l.owner == t_self->id)); }
void take(Lock* l) {
  l->owner = t_self->id;
  ++l->depth;
  acquire_from(l->vc);
  acquire_from(l->read_vc);
}
void lock(const void* m, bool recursive = false) {
  In in;
  point(true);
  for (;;) {
    auto& l = g->locks[m];
    if (may_write(l, recursive)) return take(&l);
    if (l.owner == t_self->id || (l.readers & my_bit()) != 0) die("deadlock: a thread locks a mutex that it holds");
    block_on(m);
  }
}
bool try_lock(const void* m, bool recursive = false) {
  In in;
  point(true);
  auto& l = g->locks[m];
  if (!may_write(l, recursive)) return false;
  take(&l);
  return true;
}
void unlock(const void* m, bool pre = true) {
  In in;
  if (pre) point(true);
  auto& l = g->locks[m];
  if (l.owner != t_self->id) failure("a thread unlocks a mutex that it does not hold");
  if (--l.depth > 0) return;
  l.owner = -1;
  l.depth = 0;
  release_to(&l.vc);
  wake(m, kMaxThreads);
}
// Locks for reading are shared, and order nothing among the readers.
void take_shared(Lock* l) {
  l->readers |= my_bit();
  acquire_from(l->vc);
}
void lock_shared(const void* m) {
  In in;
  point(true);
  for (;;) {
    auto& l = g->locks[m];
    if (l.owner == t_self->id || (l.readers & my_bit()) != 0) die("deadlock: a thread locks a mutex that it holds");
    if (l.owner < 0) return take_shared(&l);
    block_on(m);
  }
}
bool try_lock_shared(const void* m) {
  In in;
  point(true);
  auto& l = g->locks[m];
  if (l.owner >= 0 || (l.readers & my_bit()) != 0) return false;
  take_shared(&l);
  return true;
}
void unlock_shared(const void* m) {
  In in;
  point(true);
  auto& l = g->locks[m];
  if ((l.readers & my_bit()) == 0) failure("a thread unlocks a mutex that it does not hold");
  l.readers &= ~my_bit();
  release_to(&l.read_vc);
  wake(m, kMaxThreads);
}
bool held(const void* m, bool shared_is_enough) {
  In in;
  auto it = g->locks.find(m);
  return it != g->locks.end() && (it->second.owner == t_self->id || (shared_is_enough && (it->second.readers & my_bit()) != 0));
}
bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int cond_wait(pthread_cond_t* cv, pthread_mutex_t* m, int64_t deadline) {
  {
    In in;
    point(true, true);
    unlock(m, false);
    block_on(cv, deadline);
  }
  bool late = t_self->timed_out;
  t_self->timed_out = false;
  lock(m, is_recursive(m));
  return late ? ETIMEDOUT : 0;
}

// ---- threads ------------------------------------------------------------------
void stack_of_self(Thread* t) {
  pthread_attr_t a;
  if (pthread_getattr_np(pthread_self(), &a) != 0) die("no stack");
  void* lo = nullptr;
  size_t n = 0;
  pthread_attr_getstack(&a, &lo, &n);
  pthread_attr_destroy(&a);
  t->lo = reinterpret_cast<uintptr_t>(lo);
  t->hi = t->lo + n;
}

void* trampoline(void* p) {
  auto* t = static_cast<Thread*>(p);
  ++t_in;
  t_self = t;
  stack_of_self(t);
  wait_baton(t);
  --t_in;
  auto* r = t->fn(t->arg);
  ++t_in;
  t->state = Done;
  tick();
  wake(t, kMaxThreads);
  int id = choose(next_pick(), -1);
  if (id < 0) id = idle();
  auto* to = g->threads[id];
  ++g->res.switches;
  g->since_switch = 0;
  g->current = id;
  t_self = nullptr;
  --t_in;
  give_baton(to);
  return r;
}

int64_t mono_to_vclock(const timespec* ts) { return ts->tv_sec * 1000000000LL + ts->tv_nsec + 1600000000LL * 1000000000LL; }

}  // namespace

// ---- interface ------------------------------------------------------------
bool active() { return g && g->on; }

Plan draw_plan(vf::Ctx& c, bool timed) {
  Plan p;
  switch (c.weighted({3, 4, 3, timed ? 3u : 1u})) {
    case 0: p.mode = Plan::Sync; break;
    case 1: p.mode = Plan::Shared; break;
    case 2: p.mode = Plan::All; break;
    default: p.mode = Plan::Waits; break;
  }
  auto n = c.weighted({1, 4, 4, 3, 2, 1});
  for (size_t i = 0; i < n; ++i) {
    vf::Ctx::Span sp(c);
    auto e = c.draw(p.mode == Plan::All ? 14 : p.mode == Plan::Waits ? 4 : 9);
    auto gap = c.draw(uint64_t{1} << e);
    auto who = static_cast<uint32_t>(c.draw(6));
    p.preempt.push_back({static_cast<uint32_t>(gap), who, timed && c.chance(1, 2)});
  }
  auto k = c.range(1, 8);
  for (int64_t i = 0; i < k; ++i) p.picks.push_back(static_cast<uint32_t>(c.draw(6)));
  return p;
}

std::string text(const Plan& p) {
  static const char* k[] = {"all accesses", "synchronisation", "shared accesses", "waits"};
  std::string s = std::string("schedule: preempts at ") + k[p.mode] + " after";
  for (auto& x : p.preempt) s += (x.at_wake ? " w" : " ") + std::to_string(x.gap) + "->" + std::to_string(x.who);
  s += "; picks";
  for (auto x : p.picks) s += " " + std::to_string(x);
  return s;
}

Result run(const Plan& plan, const std::function<void()>& body) {
  if (!g) {
    g = new World;
    g->cells = static_cast<Cell*>(calloc(kCells, sizeof(Cell)));
  }
  g->plan = plan;
  g->next_preempt = g->next_pick = 0;
  g->exploring = false;
  g->since_switch = 0;
  g->n = 0;
  g->current = 0;
  g->no_timeouts = nullptr;
  g->res = Result{};
  g->locks.clear();
  g->syncs.clear();
  g->guards.clear();
  ++g->gen;
  g->used = 0;
  load_gap();
  auto* t = new Thread;
  stack_of_self(t);
  t->vc.c[0] = 1;
  g->threads[g->n++] = t;
  t_self = t;
  g->on = true;
  std::exception_ptr ex;
  try {
    body();
  } catch (...) {
    ex = std::current_exception();
  }
  // the threads of the case must be over
  for (int i = 1; i < g->n; ++i)
    if (g->threads[i]->state != Done || !g->threads[i]->joined) {
      if (ex) die("the case failed while threads were running");
      die("a thread was left behind:" + states());
    }
  g->on = false;
  t_self = nullptr;
  for (auto* p : g->freed) free(p);
  g->freed.clear();
  g->freed_bytes = 0;
  for (int i = 0; i < g->n; ++i) {
    delete g->threads[i];
    g->threads[i] = nullptr;
  }
  if (ex) std::rethrow_exception(ex);
  return g->res;
}

void go(const std::vector<std::function<void()>>& bodies) {
  std::vector<pthread_t> h(bodies.size());
  for (size_t i = 0; i < bodies.size(); ++i) {
    pthread_create(
        &h[i], nullptr,
        [](void* p) -> void* {
          (*static_cast<const std::function<void()>*>(p))();
          return nullptr;
        },
        const_cast<std::function<void()>*>(&bodies[i]));
  }
  {
    In in;
    g->exploring = true;
  }
  for (auto t : h) pthread_join(t, nullptr);
  In in;
  g->exploring = false;
}

void explore(const std::function<void()>& f) {
  bool was = g->exploring;
  g->exploring = true;
  f();
  g->exploring = was;
}

void atomically(const std::function<void()>& f) {
  bool was = g->exploring;
  g->exploring = false;
  f();
  g->exploring = was;
}

static char g_io;
void io_done() {
  In in;
  release_to(&g->syncs[&g_io].vc);
}

void fail(const std::string& msg) {
  In in;
  failure(msg);
}
bool failed() { return !g->res.failure.empty(); }
int live() {
  int k = 0;
  for (int i = 0; i < g->n; ++i) k += g->threads[i]->state != Done;
  return k;
}
void forbid_timeouts(const char* why) { g->no_timeouts = why; }
void yield() {
  if (!controlled()) return;
  In in;
  int id = choose(next_pick(), t_self->id);
  if (id < 0) {
    bool polling = false;
    for (int i = 0; i < g->n; ++i)
      if (g->threads[i]->state == Polling) {
        g->threads[i]->state = Runnable;
        polling = true;
      }
    if (polling) id = choose(next_pick(), t_self->id);
  }
  if (id >= 0) switch_to(id);
}

}  // namespace sched

using namespace sched;

// ---- the hooks of -fsanitize=thread -----------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                  \
  void __tsan_read##N(void* p) { access(p, N, false, PC); }                    \
  void __tsan_write##N(void* p) { access(p, N, true, PC); }                    \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); }          \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }          \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); }           \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }           \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); } \
  void __tsan_read_write##N(void* p) { access(p, N, true, PC); }               \
  void __tsan_unaligned_read_write##N(void* p) { access(p, N, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access(p, 8, true, PC);
}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  if (n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
  }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  if (n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
  }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, unsigned long n) {
  if (n) access(d, n, true, PC);
  return memset(d, v, n);
}

#define ATOMIC(BITS, T)                                                                                                \
  T __tsan_atomic##BITS##_load(const volatile T* a, int mo) {                                                         \
    Atomic x(a, sizeof(T), 0, mo, PC);                                                                                \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                    \
  void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) {                                                      \
    Atomic x(a, sizeof(T), 1, mo, PC);                                                                                \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) {                                                      \
    Atomic x(a, sizeof(T), 2, mo, PC);                                                                                \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                                    \
  T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) {                                                     \
    Atomic x(a, sizeof(T), 2, mo, PC);                                                                                \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) {                                                     \
    Atomic x(a, sizeof(T), 2, mo, PC);                                                                                \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) {                                                     \
    Atomic x(a, sizeof(T), 2, mo, PC);                                                                                \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) {                                                      \
    Atomic x(a, sizeof(T), 2, mo, PC);                                                                                \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                                    \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) {                                                     \
    Atomic x(a, sizeof(T), 2, mo, PC);                                                                                \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) {                                                    \
    Atomic x(a, sizeof(T), 2, mo, PC);                                                                                \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                                    \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) {                          \
    Atomic x(a, sizeof(T), 2, mo, PC);                                                                                \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
  }                                                                                                                    \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) {                            \
    Atomic x(a, sizeof(T), 2, mo, PC);                                                                                \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
  }                                                                                                                    \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) {                                \
    Atomic x(a, sizeof(T), 2, mo, PC);                                                                                \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
    return c;                                                                                                          \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// ---- pthread ------------------------------------------------------------------
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (controlled()) {
    lock(m, is_recursive(m));
    return 0;
  }
  static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (controlled()) return try_lock(m, is_recursive(m)) ? 0 : EBUSY;
  static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (controlled()) {
    unlock(m);
    return 0;
  }
  static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  return f(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  if (controlled()) {
    In in;
    g->locks.erase(m);
  }
  static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
  return f(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
  if (controlled()) {
    lock_shared(m);
    return 0;
  }
  static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  return f(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
  if (controlled()) return try_lock_shared(m) ? 0 : EBUSY;
  static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
  return f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
  if (controlled()) {
    lock(m);
    return 0;
  }
  static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  return f(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
  if (controlled()) return try_lock(m) ? 0 : EBUSY;
  static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
  return f(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
  if (controlled()) {
    if (held(m, false))
      unlock(m);
    else
      unlock_shared(m);
    return 0;
  }
  static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  return f(m);
}
int pthread_rwlock_destroy(pthread_rwlock_t* m) noexcept {
  if (controlled()) {
    In in;
    g->locks.erase(m);
  }
  static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_destroy");
  return f(m);
}
int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  if (controlled()) return cond_wait(cv, m, kNever);
  static auto f = next<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  return f(cv, m);
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const timespec* ts) {
  // condition variables of asio use the monotonic clock where they wait with a timeout
  if (controlled()) return cond_wait(cv, m, ts->tv_sec * 1000000000LL + ts->tv_nsec);
  static auto f = next<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait");
  return f(cv, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
  if (controlled())
    return cond_wait(cv, m, k == CLOCK_MONOTONIC ? mono_to_vclock(ts) : ts->tv_sec * 1000000000LL + ts->tv_nsec);
  static auto f = next<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait");
  return f(cv, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t* cv) noexcept {
  if (controlled()) {
    In in;
    point(true);
    wake(cv, 1);
    return 0;
  }
  static auto f = next<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  return f(cv);
}
int pthread_cond_broadcast(pthread_cond_t* cv) noexcept {
  if (controlled()) {
    In in;
    point(true);
    wake(cv, kMaxThreads);
    return 0;
  }
  static auto f = next<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  return f(cv);
}
int pthread_cond_destroy(pthread_cond_t* cv) noexcept {
  // the real one was never waited for by a controlled thread
  static auto f = next<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
  return f(cv);
}
int pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept {
  static auto f = next<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!controlled()) return f(h, at, fn, arg);
  In in;
  if (g->n >= kMaxThreads) die("too many threads");
  auto* t = new Thread;
  t->id = g->n;
  t->fn = fn;
  t->arg = arg;
  t->vc = t_self->vc;
  t->vc.c[t->id] = 1;
  tick();
  g->threads[g->n++] = t;
  int r = f(&t->handle, at, trampoline, t);
  if (r != 0) die("no thread");
  *h = t->handle;
  point(true);
  return 0;
}
int pthread_join(pthread_t h, void** r) {
  static auto f = next<int (*)(pthread_t, void**)>("pthread_join");
  if (!controlled()) return f(h, r);
  In in;
  point(true);
  for (int i = 0; i < g->n; ++i) {
    auto* t = g->threads[i];
    if (!pthread_equal(t->handle, h) || t->joined || i == 0) continue;
    while (t->state != Done) block_on(t);
    acquire_from(t->vc);
    t->joined = true;
    return f(h, r);
  }
  return f(h, r);
}
int sched_yield() noexcept {
  if (controlled()) {
    sched::yield();
    return 0;
  }
  return static_cast<int>(syscall(SYS_sched_yield));
}
static void controlled_sleep(int64_t ns) {
  In in;
  static char never;
  block_on(&never, vf::vnow() + (ns > 0 ? ns : 0));
}
int nanosleep(const timespec* ts, timespec* rem) {
  if (controlled()) {
    controlled_sleep(ts->tv_sec * 1000000000LL + ts->tv_nsec);
    return 0;
  }
  static auto f = next<int (*)(const timespec*, timespec*)>("nanosleep");
  return f(ts, rem);
}
int clock_nanosleep(clockid_t k, int flags, const timespec* ts, timespec* rem) {
  if (controlled() && !(flags & TIMER_ABSTIME)) {
    controlled_sleep(ts->tv_sec * 1000000000LL + ts->tv_nsec);
    return 0;
  }
  static auto f = next<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
  return f(k, flags, ts, rem);
}
int usleep(useconds_t us) {
  timespec ts{us / 1000000, static_cast<long>(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
// what was done before a handler was installed has happened for the one that raises the signal
int sigaction(int sig, const struct sigaction* a, struct sigaction* old) noexcept {
  static auto f = next<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction");
  if (!controlled()) return f(sig, a, old);
  In in;
  static char key;
  auto& v = g->syncs[&key].vc;
  acquire_from(v);
  int r = f(sig, a, old);
  release_to(&v);
  return r;
}
int epoll_wait(int fd, epoll_event* e, int n, int timeout) {
  static auto f = next<int (*)(int, epoll_event*, int, int)>("epoll_wait");
  if (!controlled()) return f(fd, e, n, timeout);
  In in;
  point(true);
  for (int waits = 0;;) {
    int r = f(fd, e, n, 0);
    if (r > 0) acquire_from(g->syncs[&g_io].vc);
    if (r != 0 || timeout == 0) return r;
    t_self->state = Polling;
    int id = choose(next_pick(), -1);
    if (id < 0) {
      t_self->state = Runnable;
      // only others outside, or a timed wait, can change anything
      bool timed = false;
      for (int i = 0; i < g->n; ++i) timed = timed || (g->threads[i]->state == Blocked && g->threads[i]->deadline != kNever);
      if (!timed) {
        r = f(fd, e, n, 20);
        if (r > 0) acquire_from(g->syncs[&g_io].vc);
        if (r != 0) return r;
        if (++waits > 500) die("deadlock: every thread waits for ever, or for input that does not come:" + states());
        continue;
      }
      t_self->state = Blocked;
      id = idle();
      t_self->state = Polling;
      switch_to(id);
      continue;
    }
    switch_to(id);
  }
}

// ---- function statics ---------------------------------------------------------
int __cxa_guard_acquire(abi::__guard* gd) {
  static auto f = next<int (*)(void*)>("__cxa_guard_acquire");
  if (!controlled()) return f(gd);
  In in;
  for (;;) {
    if (*reinterpret_cast<char*>(gd) != 0) {
      acquire_from(g->syncs[gd].vc);
      return 0;
    }
    auto& owner = g->guards[gd];
    if (owner == 0) {
      owner = t_self->id + 1;
      return 1;
    }
    block_on(gd);
  }
}
void __cxa_guard_release(abi::__guard* gd) noexcept {
  static auto f = next<void (*)(void*)>("__cxa_guard_release");
  if (!controlled()) return f(gd);
  In in;
  *reinterpret_cast<char*>(gd) = 1;
  g->guards.erase(gd);
  release_to(&g->syncs[gd].vc);
  wake(gd, kMaxThreads);
}
void __cxa_guard_abort(abi::__guard* gd) noexcept {
  static auto f = next<void (*)(void*)>("__cxa_guard_abort");
  if (!controlled()) return f(gd);
  In in;
  g->guards.erase(gd);
  wake(gd, kMaxThreads);
}

// ---- memory: nothing is given back while a case runs -----------------------------
void __libc_free(void*);
void free(void* p) noexcept {
  if (!p) return;
  if (controlled() && g->freed_bytes < (256u << 20)) {
    In in;
    auto n = malloc_usable_size(p);
    auto* pc = PC;
    auto a = reinterpret_cast<uintptr_t>(p);
    if (n <= (1u << 16))
      for (auto k = a >> 3; k <= (a + n - 1) >> 3; k += n > 1024 ? 8 : 1)
        if (auto* c = cell(k)) check_cell(c, 0xff, 1 | 4, pc);
    g->freed_bytes += n;
    g->freed.push_back(p);
    return;
  }
  if (controlled()) g->plan.races = false;  // memory is used again from now on
  __libc_free(p);
}
void* __libc_realloc(void*, size_t);
void* realloc(void* p, size_t n) noexcept {
  if (!p || n == 0 || !controlled()) return __libc_realloc(p, n);
  auto* q = malloc(n);
  if (!q) return nullptr;
  auto old = malloc_usable_size(p);
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
}

// ---- absl ---------------------------------------------------------------------
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace {
struct RealLock {
  static void lock(const void* m) {
    while (!try_lock(m)) syscall(SYS_sched_yield);
  }
  static std::atomic<intptr_t>* word(const void* m) { return reinterpret_cast<std::atomic<intptr_t>*>(const_cast<void*>(m)); }
  static bool try_lock(const void* m) {
    intptr_t z = 0;
    return word(m)->compare_exchange_strong(z, 1);
  }
  static void unlock(const void* m) { word(m)->store(0); }
  static bool try_read(const void* m) {  // 2 for each reader
    auto v = word(m)->load();
    return (v & 1) == 0 && word(m)->compare_exchange_strong(v, v + 2);
  }
  static void read(const void* m) {
    while (!try_read(m)) syscall(SYS_sched_yield);
  }
  static void unread(const void* m) { word(m)->fetch_sub(2); }
};
}  // namespace
void Mutex::Lock() {
  if (controlled())
    lock(this);
  else
    RealLock::lock(this);
}
void Mutex::Unlock() {
  if (controlled())
    unlock(this);
  else
    RealLock::unlock(this);
}
bool Mutex::TryLock() { return controlled() ? try_lock(this) : RealLock::try_lock(this); }
void Mutex::ReaderLock() {
  if (controlled())
    lock_shared(this);
  else
    RealLock::read(this);
}
void Mutex::ReaderUnlock() {
  if (controlled())
    unlock_shared(this);
  else
    RealLock::unread(this);
}
bool Mutex::ReaderTryLock() { return controlled() ? try_lock_shared(this) : RealLock::try_read(this); }
void Mutex::AssertHeld() const {
  if (controlled() && !held(this, false)) sched::fail("a mutex is not held");
}
void Mutex::AssertReaderHeld() const {
  if (controlled() && !held(this, true)) sched::fail("a mutex is not held");
}
void Mutex::AssertNotHeld() const {
  if (controlled() && held(this, true)) sched::fail("a mutex is held");
}
Mutex::~Mutex() {
  if (controlled()) {
    In in;
    g->locks.erase(this);
  }
}
void CondVar::Wait(Mutex* m) {
  if (!controlled()) {
    m->Unlock();
    syscall(SYS_sched_yield);
    m->Lock();
    return;
  }
  {
    In in;
    point(true);
    unlock(m, false);
    block_on(this);
  }
  lock(m);
}
bool CondVar::WaitWithTimeout(Mutex* m, absl::Duration d) {
  if (!controlled()) {
    Wait(m);
    return false;
  }
  {
    In in;
    point(true);
    unlock(m, false);
    block_on(this, vf::vnow() + absl::ToInt64Nanoseconds(d));
  }
  bool late = t_self->timed_out;
  t_self->timed_out = false;
  lock(m);
  return late;
}
bool CondVar::WaitWithDeadline(Mutex* m, absl::Time t) { return WaitWithTimeout(m, absl::Nanoseconds(absl::ToUnixNanos(t) - vf::vnow())); }
void CondVar::Signal() {
  if (!controlled()) return;
  In in;
  point(true);
  wake(this, 1);
}
void CondVar::SignalAll() {
  if (!controlled()) return;
  In in;
  point(true);
  wake(this, kMaxThreads);
}
bool BlockingCounter::DecrementCount() {
  bool last = count_.fetch_sub(1) == 1;
  if (last) {
    lock_.Lock();
    done_ = true;
    if (controlled()) {
      In in;
      wake(&done_, kMaxThreads);
    }
    lock_.Unlock();
  }
  return last;
}
void BlockingCounter::Wait() {
  lock_.Lock();
  while (!done_) {
    lock_.Unlock();
    if (controlled()) {
      In in;
      if (!done_) block_on(&done_);
    } else {
      syscall(SYS_sched_yield);
    }
    lock_.Lock();
  }
  lock_.Unlock();
}
ABSL_NAMESPACE_END
}  // namespace absl
