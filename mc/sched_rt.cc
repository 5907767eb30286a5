// The runtime behind mc/sched.h.  Compiled without instrumentation.
#include "sched.h"

#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <new>
#include <unordered_map>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

namespace kmc::sched {
namespace {

using uptr = std::uintptr_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}

// The runtime's own containers must not go through the checked allocator.
template <class T>
struct Alloc {
  using value_type = T;
  Alloc() = default;
  template <class U>
  Alloc(const Alloc<U>&) {}
  T* allocate(std::size_t n) { return static_cast<T*>(__libc_malloc(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { __libc_free(p); }
  bool operator==(const Alloc&) const { return true; }
};
template <class T>
using Vec = std::vector<T, Alloc<T>>;
template <class K, class V>
using Map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Alloc<std::pair<const K, V>>>;

// ---------------------------------------------------------------- clocks and shadow memory

constexpr int SLOTS = 32;
constexpr std::size_t STACK = 8u << 20;
constexpr u32 CLK_BITS = 26;
constexpr u32 CLK_MASK = (1u << CLK_BITS) - 1;
constexpr u32 FLAG = 1u << 31;

struct VC {
  u32 c[SLOTS] = {};
  void join(const VC& o) {
    for (int i = 0; i < SLOTS; ++i) c[i] = c[i] < o.c[i] ? o.c[i] : c[i];
  }
};

struct Cell {
  u32 w;    // FLAG: also accessed atomically; slot << 26 | clock of the last write
  u32 r;    // last read, or FLAG | index into the read sets
  u32 wpc, rpc;
};
struct Sync {
  uptr addr;
  Sync* next;
  VC rel;     // what an acquirer learns
  VC aw, ar;  // atomic writes and reads, for races with plain accesses
  u64 version;
};
struct Page {
  uptr no;
  Page* next;
  Cell cells[4096];
  Sync* sync[512];
};

constexpr std::size_t HASH = 1 << 16;
Page* g_pages[HASH];
Page* g_last_page;
uptr g_last_no = ~uptr{0};
std::size_t g_num_pages;
VC* g_readsets;
u32 g_num_readsets, g_cap_readsets;
Sync* g_free_syncs;

Page* find_page(uptr no, bool create) {
  if (no == g_last_no) return g_last_page;
  auto h = (no * 0x9e3779b97f4a7c15ULL) >> 48;
  for (Page* p = g_pages[h]; p; p = p->next)
    if (p->no == no) {
      g_last_no = no;
      g_last_page = p;
      return p;
    }
  if (!create) return nullptr;
  auto* p = static_cast<Page*>(__libc_calloc(1, sizeof(Page)));
  p->no = no;
  p->next = g_pages[h];
  g_pages[h] = p;
  ++g_num_pages;
  g_last_no = no;
  g_last_page = p;
  return p;
}

Sync* find_sync(uptr a, bool create) {
  Page* p = find_page(a >> 12, create);
  if (!p) return nullptr;
  Sync*& head = p->sync[(a & 4095) >> 3];
  for (Sync* s = head; s; s = s->next)
    if (s->addr == a) return s;
  if (!create) return nullptr;
  Sync* s = g_free_syncs;
  if (s) {
    g_free_syncs = s->next;
  } else {
    s = static_cast<Sync*>(__libc_malloc(sizeof(Sync)));
  }
  memset(static_cast<void*>(s), 0, sizeof *s);
  s->addr = a;
  s->next = head;
  head = s;
  return s;
}

void clear_shadow() {
  for (auto& head : g_pages) {
    for (Page* p = head; p;) {
      Page* n = p->next;
      for (auto* s : p->sync)
        while (s) {
          auto* t = s->next;
          s->next = g_free_syncs;
          g_free_syncs = s;
          s = t;
        }
      __libc_free(p);
      p = n;
    }
    head = nullptr;
  }
  g_last_no = ~uptr{0};
  g_last_page = nullptr;
  g_num_pages = 0;
  g_num_readsets = 0;
}

// ---------------------------------------------------------------- threads and operations

enum Kind : unsigned char { K_NONE, K_START, K_ATOMIC, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CREATE, K_JOIN, K_FWAIT, K_FWAKE,
                            K_WOKEN, K_CWAIT, K_CSIGNAL, K_ONCE, K_AWAIT, K_USER, K_RDLOCK, K_SWAIT, K_SPOST };
const char* const kind_names[] = {"none", "start", "atomic", "lock", "trylock", "unlock", "create", "join", "futex-wait",
                                  "futex-wake", "woken", "cond-wait", "cond-signal", "once", "await", "point", "rdlock",
                                  "sem-wait", "sem-post"};

struct Op {
  Kind kind = K_NONE;
  bool write = false;
  uptr obj = 0;
};

bool dependent(const Op& a, const Op& b) { return a.obj && a.obj == b.obj && (a.write || b.write); }

constexpr int MAXT = 64;  // threads of one execution under DPOR
struct DVC {
  u32 c[MAXT] = {};
  void join(const DVC& o, int n) {
    for (int i = 0; i < n; ++i)
      if (c[i] < o.c[i]) c[i] = o.c[i];
  }
};

struct Thread {
  int id = 0, slot = 0;
  std::atomic<int> go{0};
  pthread_t real{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  Op pending;
  bool finished = false, joined = false, detached = false;
  bool woken = false, timed = false, timed_out = false;
  uptr wait_addr = 0;
  VC vc, acqf, relf;
  DVC dvc;
  u32 devents = 0;
  // Spinning
  uptr spin_addr = 0;
  u64 spin_version = 0;
  u32 spins = 0, yields = 0;
  u64 await_version = 0;
};

struct Mutex {
  int owner = -1, depth = 0;
  int readers = 0;
  VC vc, rvc;
};
struct Once {
  int runner = -1;
};
struct Obj {
  DVC w, all;
};

struct Node {  // DPOR
  int chosen;
  u64 enabled, backtrack, done, sleep;
  Op ops[MAXT > 16 ? 16 : MAXT];
};
struct DNode {  // DELAY
  int opt, max;
};
struct Event {
  int tid;
  u32 local;  // which event of the thread
  int node;   // index of the decision
  Op op;
};

struct Slot {
  char* stack = nullptr;
  bool used = false;
  VC last;
  u32 clock = 1;
};

Options g_opt;
Result* g_res;
bool g_active;        // within an execution
bool g_multi;         // some thread besides the first is not joined
Thread* g_cur;
thread_local Thread* self __attribute__((tls_model("initial-exec")));
thread_local bool t_gone __attribute__((tls_model("initial-exec")));
Vec<Thread*> g_threads;  // of this execution
std::size_t g_unjoined, g_live, g_max_live;
Slot g_slots[SLOTS];
Map<uptr, Mutex> g_mutexes;
Map<uptr, Once> g_onces;
Map<uptr, Obj> g_objs;
Vec<Node> g_stack;
Vec<DNode> g_dstack;
Vec<Event> g_trace;
Vec<short> g_schedule;  // for reports
std::size_t g_step;
int g_delays_left;
bool g_free_run;  // the rest of this execution is redundant
u64 g_steps_exec;
u64 g_commits;
bool g_race;
pthread_key_t g_key;
bool g_key_made;

int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*real_join)(pthread_t, void**);
int (*real_detach)(pthread_t);
int (*real_mlock)(pthread_mutex_t*);
int (*real_mtry)(pthread_mutex_t*);
int (*real_munlock)(pthread_mutex_t*);
int (*real_once)(pthread_once_t*, void (*)());
int (*real_cwait)(pthread_cond_t*, pthread_mutex_t*);
int (*real_ctwait)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int (*real_ccwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
int (*real_csignal)(pthread_cond_t*);
int (*real_cbroadcast)(pthread_cond_t*);
int (*real_rdlock)(pthread_rwlock_t*);
int (*real_wrlock)(pthread_rwlock_t*);
int (*real_tryrdlock)(pthread_rwlock_t*);
int (*real_trywrlock)(pthread_rwlock_t*);
int (*real_rwunlock)(pthread_rwlock_t*);
int (*real_guard_acquire)(void*);
void (*real_guard_release)(void*);
void (*real_guard_abort)(void*);
int (*real_sem_wait)(sem_t*);
int (*real_sem_post)(sem_t*);
int (*real_sem_trywait)(sem_t*);
int (*real_yield)();
int (*real_nanosleep)(const timespec*, timespec*);
int (*real_clock_nanosleep)(clockid_t, int, const timespec*, timespec*);

template <class F>
void resolve(F& f, const char* name) {
  if (!f) f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(f, name) (resolve(f, name), f)

bool in_session() { return g_active && self != nullptr && !t_gone; }

// ---------------------------------------------------------------- reports

void add_text(const char* fmt, ...) {
  auto n = strlen(g_res->text);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_res->text + n, sizeof g_res->text - n, fmt, ap);
  va_end(ap);
}

void describe_schedule() {
  add_text("\n  threads: %zu; schedule (thread of each scheduling point, repeated):", g_threads.size());
  for (std::size_t i = 0; i < g_schedule.size();) {
    std::size_t j = i;
    while (j < g_schedule.size() && g_schedule[j] == g_schedule[i]) ++j;
    add_text(" %d", g_schedule[i]);
    if (j - i > 1) add_text("x%zu", j - i);
    i = j;
  }
}

void violation(const char* key) {
  if (g_res->key[0]) return;
  snprintf(g_res->key, sizeof g_res->key, "%s", key);
}

[[noreturn]] void die() {
  g_res->complete = false;
  _exit(77);
}

[[noreturn]] void fatal(const char* key, const char* what) {
  violation(key);
  add_text("%s", what);
  for (auto* t : g_threads)
    if (!t->finished)
      add_text("; thread %d at %s(%#lx)", t->id, kind_names[t->pending.kind], static_cast<unsigned long>(t->pending.obj));
  describe_schedule();
  die();
}

void symbolize(u32 pc, char* out, std::size_t n) {
  extern char __executable_start;
  snprintf(out, n, "pc %#x", pc);
  char exe[512];
  auto len = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (len <= 0) return;
  exe[len] = 0;
  char cmd[700];
  snprintf(cmd, sizeof cmd, "addr2line -ie %s %#lx 2>/dev/null", exe, static_cast<unsigned long>(pc) - 1);
  bool a = g_active;
  g_active = false;
  if (FILE* f = popen(cmd, "r")) {
    char line[600];
    std::size_t k = 0;
    while (fgets(line, sizeof line, f) && k + 1 < n) {
      line[strcspn(line, "\n")] = 0;
      if (char* d = strstr(line, " (discriminator")) *d = 0;
      k += static_cast<std::size_t>(snprintf(out + k, n - k, "%s%s", k ? " < " : "", line));
    }
    pclose(f);
  }
  g_active = a;
}

uptr exe_base() {
  static uptr b = [] {
    Dl_info i{};
    dladdr(reinterpret_cast<void*>(&explore), &i);
    return reinterpret_cast<uptr>(i.dli_fbase);
  }();
  return b;
}

void report_race(uptr a, bool w, uptr pc, bool other_w, int other_slot, u32 other_pc, const char* kind) {
  if (g_race) return;
  g_race = true;
  violation("data-race");
  char x[900], y[900];
  symbolize(static_cast<u32>(pc - exe_base()), x, sizeof x);
  symbolize(other_pc, y, sizeof y);
  int other = -1;
  for (auto* t : g_threads)
    if (t->slot == other_slot) other = t->id;
  add_text("data race: thread %d %s%s at %s without synchronisation with thread %d's %s%s%s", g_cur->id,
           w ? "writes" : "reads", kind, x, other, other_w ? "write" : "read", other_pc ? " at " : "", other_pc ? y : "");
}

// ---------------------------------------------------------------- race detection

bool hb(const Thread* t, u32 e) { return (e & CLK_MASK) <= t->vc.c[(e & ~FLAG) >> CLK_BITS]; }
u32 epoch(const Thread* t) { return static_cast<u32>(t->slot) << CLK_BITS | t->vc.c[t->slot]; }

void check_atomic_history(uptr a, bool w, uptr pc) {
  // Some atomic starting within the preceding 7 bytes covers a.
  Page* p = find_page(a >> 12, false);
  if (!p) return;
  for (Sync* s = p->sync[(a & 4095) >> 3]; s; s = s->next) {
    if (s->addr > a || a - s->addr >= 8) continue;
    for (int i = 0; i < SLOTS; ++i) {
      if (i == g_cur->slot) continue;
      if (s->aw.c[i] > g_cur->vc.c[i]) return report_race(a, w, pc, true, i, 0, "");
      if (w && s->ar.c[i] > g_cur->vc.c[i]) return report_race(a, w, pc, false, i, 0, "");
    }
  }
}

inline void cell_read(Cell& c, uptr a, Thread* t, u32 e, uptr pc) {
  u32 w = c.w & ~FLAG;
  if (c.r == e) return;
  if (__builtin_expect(w && !hb(t, w), 0)) report_race(a, false, pc, true, w >> CLK_BITS, c.wpc, "");
  if (__builtin_expect(c.w & FLAG, 0)) check_atomic_history(a, false, pc);
  if (c.r & FLAG) {
    g_readsets[c.r & ~FLAG].c[t->slot] = t->vc.c[t->slot];
    return;
  }
  if (c.r == 0 || hb(t, c.r)) {
    c.r = e;
    c.rpc = static_cast<u32>(pc - exe_base());
    return;
  }
  if (g_num_readsets == g_cap_readsets) {
    g_cap_readsets = g_cap_readsets ? g_cap_readsets * 2 : 4096;
    g_readsets = static_cast<VC*>(__libc_realloc(g_readsets, g_cap_readsets * sizeof(VC)));
  }
  auto& s = g_readsets[g_num_readsets];
  s = VC{};
  s.c[c.r >> CLK_BITS] = c.r & CLK_MASK;
  s.c[t->slot] = t->vc.c[t->slot];
  c.r = FLAG | g_num_readsets++;
}

inline void cell_write(Cell& c, uptr a, Thread* t, u32 e, uptr pc) {
  u32 w = c.w & ~FLAG;
  if (w == e && c.r == 0) return;
  if (__builtin_expect(w && !hb(t, w), 0)) report_race(a, true, pc, true, w >> CLK_BITS, c.wpc, "");
  if (c.r & FLAG) {
    auto& s = g_readsets[c.r & ~FLAG];
    for (int i = 0; i < SLOTS; ++i)
      if (s.c[i] > t->vc.c[i]) report_race(a, true, pc, false, i, c.rpc, "");
  } else if (__builtin_expect(c.r && !hb(t, c.r), 0)) {
    report_race(a, true, pc, false, c.r >> CLK_BITS, c.rpc, "");
  }
  if (__builtin_expect(c.w & FLAG, 0)) check_atomic_history(a, true, pc);
  c.r = 0;
  c.w = e | (c.w & FLAG);
  c.wpc = static_cast<u32>(pc - exe_base());
}

inline void access(uptr a, std::size_t n, bool w, uptr pc) {
  if (__builtin_expect(!g_multi, 1)) return;
  Thread* t = g_cur;
  u32 e = epoch(t);
  ++g_res->accesses;
  while (n) {
    Page* p = find_page(a >> 12, true);
    std::size_t off = a & 4095, k = 4096 - off < n ? 4096 - off : n;
    for (std::size_t i = 0; i < k; ++i) {
      if (w) cell_write(p->cells[off + i], a + i, t, e, pc);
      else cell_read(p->cells[off + i], a + i, t, e, pc);
    }
    a += k;
    n -= k;
  }
}

void on_alloc(void* p, std::size_t n) {
  uptr a = reinterpret_cast<uptr>(p);
  while (n) {
    std::size_t off = a & 4095, k = 4096 - off < n ? 4096 - off : n;
    if (Page* pg = find_page(a >> 12, false)) {
      memset(pg->cells + off, 0, k * sizeof(Cell));
      for (std::size_t g = off >> 3; g <= (off + k - 1) >> 3; ++g)
        while (Sync* s = pg->sync[g]) {
          pg->sync[g] = s->next;
          s->next = g_free_syncs;
          g_free_syncs = s;
        }
    }
    a += k;
    n -= k;
  }
}

void on_free(void* p, uptr pc) {
  std::size_t n = malloc_usable_size(p);
  uptr a = reinterpret_cast<uptr>(p);
  Thread* t = g_cur;
  u32 e = epoch(t);
  for (std::size_t i = 0; i < n; i += 8) {
    Page* pg = find_page((a + i) >> 12, false);
    if (!pg) continue;
    Cell& c = pg->cells[(a + i) & 4095];
    if (c.w || c.r) cell_write(c, a + i, t, e, pc);
  }
}

void release_tick(Thread* t) {
  if (++t->vc.c[t->slot] >= CLK_MASK) fatal("broken", "clock overflow");
}

// ---------------------------------------------------------------- scheduling

void wake(Thread* t) {
  t->go.store(1, std::memory_order_release);
  raw_syscall(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
void wait_go(Thread* t) {
  while (t->go.load(std::memory_order_acquire) == 0)
    raw_syscall(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  t->go.store(0, std::memory_order_relaxed);
  g_cur = t;
}

bool enabled(Thread* t) {
  if (t->finished) return false;
  switch (t->pending.kind) {
    case K_LOCK: {
      auto& m = g_mutexes[t->pending.obj];
      return (m.owner == -1 || m.owner == t->id) && m.readers == 0;
    }
    case K_RDLOCK: return g_mutexes[t->pending.obj].owner == -1;
    case K_JOIN: return reinterpret_cast<Thread*>(t->wait_addr)->finished;
    case K_WOKEN: return t->woken;
    case K_ONCE: return g_onces[t->pending.obj].runner == -1;
    case K_SWAIT: return *reinterpret_cast<volatile int*>(t->pending.obj) > 0;
    case K_AWAIT: {
      if (t->woken) return true;
      if (t->spin_addr == 0) return g_commits != t->await_version;
      auto* s = find_sync(t->spin_addr, true);
      return s->version != t->await_version;
    }
    default: return true;
  }
}

int g_nudges;

void backtrack_for(int p, const Op& op, const DVC& clock) {
  for (std::size_t k = g_trace.size(); k-- > 0;) {
    auto& e = g_trace[k];
    if (e.tid == p || !dependent(e.op, op)) continue;
    if (e.local <= clock.c[e.tid]) continue;  // happens before
    if ((op.kind == K_LOCK || op.kind == K_RDLOCK) && e.op.kind == K_UNLOCK) continue;  // never co-enabled
    auto& n = g_stack[e.node];
    u64 bit = 1ULL << p;
    if (n.enabled & bit) {
      n.backtrack |= bit;
    } else {
      u64 c = 0;
      for (std::size_t q = k + 1; q < g_trace.size(); ++q)
        if (g_trace[q].local <= clock.c[g_trace[q].tid]) c |= 1ULL << g_trace[q].tid;
      c &= n.enabled;
      if (c == 0) n.backtrack |= n.enabled;
      else if (!(c & n.backtrack)) n.backtrack |= c & (~c + 1);
    }
    return;
  }
}

Thread* pick(Thread* cur) {
  if (++g_steps_exec > g_opt.max_events) fatal("no-end", "the execution does not end");
  Vec<Thread*>& ts = g_threads;
  static Thread* en[4096];
  std::size_t n = 0;
  std::size_t from = cur->id;
  if (g_opt.strategy == Options::DELAY && g_opt.rotate && g_steps_exec % g_opt.rotate == 0) ++from;
  for (;;) {
    n = 0;
    for (std::size_t k = 0; k < ts.size(); ++k) {
      Thread* t = ts[(k + from) % ts.size()];
      if (enabled(t)) en[n++] = t;
    }
    if (n) break;
    // Let waits with a time limit expire, let spinning threads look again.
    bool any = false;
    if (++g_nudges < 2000)
      for (auto* t : ts)
        if (!t->finished && ((t->pending.kind == K_WOKEN && t->timed) || (t->pending.kind == K_AWAIT && g_nudges < 50))) {
          t->woken = true;
          t->timed_out = true;
          any = true;
        }
    if (!any) fatal("deadlock", "deadlock: no thread can run");
  }

  if (g_opt.strategy == Options::DELAY) {
    int opt = 0;
    if (n > 1) {
      if (g_step < g_dstack.size()) {
        opt = g_dstack[g_step].opt;
        if (opt >= static_cast<int>(n)) fatal("broken", "the replay of a schedule diverged");
      } else {
        int max = static_cast<int>(n) - 1;
        if (max > g_delays_left) max = g_delays_left;
        if (g_delays_left == g_opt.delays && g_step % g_opt.shards != g_opt.shard) max = 0;
        g_dstack.push_back({0, max});
      }
      g_delays_left -= opt;
      ++g_step;
    }
    return en[opt];
  }

  if (g_free_run) return en[0];
  if (ts.size() > 16) fatal("broken", "too many threads for this exploration");
  u64 mask = 0;
  for (std::size_t k = 0; k < n; ++k) mask |= 1ULL << en[k]->id;
  if (g_step < g_stack.size()) {
    auto& nd = g_stack[g_step];
    if (nd.enabled != mask) fatal("broken", "the replay of a schedule diverged");
    ++g_step;
    return ts[nd.chosen];
  }
  Node nd{};
  nd.enabled = mask;
  for (std::size_t k = 0; k < ts.size(); ++k) nd.ops[k] = ts[k]->pending;
  if (g_step > 0) {
    auto& pr = g_stack[g_step - 1];
    u64 s = (pr.sleep | pr.done) & ~(1ULL << pr.chosen);
    for (int q = 0; q < 16; ++q)
      if ((s >> q & 1) && !dependent(pr.ops[q], pr.ops[pr.chosen])) nd.sleep |= 1ULL << q;
  }
  Thread* c = nullptr;
  for (std::size_t k = 0; k < n && !c; ++k)
    if (!(nd.sleep >> en[k]->id & 1)) c = en[k];
  if (!c) {
    // Every continuation was explored from an equivalent state.
    for (std::size_t k = 0; k < n; ++k) backtrack_for(en[k]->id, en[k]->pending, en[k]->dvc);
    g_free_run = true;
    return en[0];
  }
  nd.chosen = c->id;
  nd.backtrack = 1ULL << c->id;
  nd.done = 1ULL << c->id;
  g_stack.push_back(nd);
  ++g_step;
  return c;
}

void commit(Thread* t) {
  ++g_commits;
  ++g_res->events;
  if (g_schedule.size() < 20000) g_schedule.push_back(static_cast<short>(t->id));
  const Op& op = t->pending;
  if (g_opt.strategy == Options::DPOR && !g_free_run) {
    if (op.obj) backtrack_for(t->id, op, t->dvc);
    int n = static_cast<int>(g_threads.size());
    if (op.obj) {
      auto& o = g_objs[op.obj];
      t->dvc.join(op.write ? o.all : o.w, n);
    }
    if (op.kind == K_JOIN) t->dvc.join(reinterpret_cast<Thread*>(t->wait_addr)->dvc, n);
    t->dvc.c[t->id] = ++t->devents;
    g_trace.push_back({t->id, t->devents, static_cast<int>(g_step) - 1, op});
    if (op.obj) {
      auto& o = g_objs[op.obj];
      if (op.write) o.w.join(t->dvc, n);
      o.all.join(t->dvc, n);
    }
  }
}

void sched_point(Kind kind, bool write, uptr obj) {
  Thread* t = self;
  t->pending = {kind, write, obj};
  if (!g_multi) {
    if (!enabled(t)) fatal("deadlock", "deadlock: the only thread cannot run");
    return;
  }
  Thread* n = pick(t);
  if (n != t) {
    wake(n);
    wait_go(t);
  }
  commit(t);
}

void on_exit(void* p) {
  auto* t = static_cast<Thread*>(p);
  if (!g_active || t != self) return;
  t->finished = true;
  --g_live;
  if (t->detached) {
    // Its slot is never reused and its accesses stay unordered.
  }
  t_gone = true;
  Thread* n = pick(t);
  wake(n);
}

void* trampoline(void* p) {
  auto* t = static_cast<Thread*>(p);
  wait_go(t);
  self = t;
  commit(t);
  pthread_setspecific(g_key, t);
  return t->fn(t->arg);
}

// Spinning on a location: the repeated look is not a scheduling point; after many the thread sleeps until a change.
bool spinning(Thread* t, uptr a, Sync* s) {
  if (t->spin_addr == a && t->spin_version == s->version) {
    if (++t->spins > 200) {
      t->spins = 0;
      t->woken = false;
      t->await_version = s->version;
      sched_point(K_AWAIT, false, a);
      t->woken = false;
    }
    return true;
  }
  return false;
}
void looked(Thread* t, uptr a, Sync* s) {
  if (t->spin_addr != a || t->spin_version != s->version) t->spins = 0;
  t->spin_addr = a;
  t->spin_version = s->version;
}

void begin_execution() {
  for (auto* t : g_threads) delete t;
  g_threads.clear();
  g_trace.clear();
  g_schedule.clear();
  g_mutexes.clear();
  g_onces.clear();
  g_objs.clear();
  g_step = 0;
  g_delays_left = g_opt.delays;
  g_free_run = false;
  g_steps_exec = 0;
  g_unjoined = g_live = g_max_live = 0;
  g_nudges = 0;
  bool reset = g_num_readsets > 200000 || g_num_pages > 40000;
  for (auto& s : g_slots) reset = reset || s.clock > CLK_MASK / 2;
  if (reset) {
    clear_shadow();
    for (auto& s : g_slots) {
      s.clock = 1;
      s.last = VC{};
    }
  }
  auto* t = new (__libc_malloc(sizeof(Thread))) Thread;
  t->slot = 0;
  // Everything before this execution happens before it.
  for (int i = 0; i < SLOTS; ++i) {
    t->vc.c[i] = g_slots[i].clock;
    g_slots[i].used = false;
  }
  g_slots[0].used = true;
  t->vc.c[0] = ++g_slots[0].clock;
  g_threads.push_back(t);
  self = t;
  g_cur = t;
  g_multi = false;
  g_active = true;
}

void end_execution() {
  for (auto* t : g_threads)
    if (!t->finished && t->id != 0) {
      // Threads left behind: let them finish, then report.
      violation("thread-left-behind");
      add_text("a thread was still running when the call returned");
      describe_schedule();
      die();
    }
  g_active = false;
  g_multi = false;
  auto* t = g_threads[0];
  for (int i = 0; i < SLOTS; ++i)
    if (g_slots[i].clock < t->vc.c[i]) g_slots[i].clock = t->vc.c[i];
  for (auto* x : g_threads)
    if (g_slots[x->slot].clock < x->vc.c[x->slot]) g_slots[x->slot].clock = x->vc.c[x->slot];
  g_res->max_events = g_steps_exec > g_res->max_events ? g_steps_exec : g_res->max_events;
  g_res->max_live = g_max_live > g_res->max_live ? g_max_live : g_res->max_live;
  self = nullptr;
}

bool next_dpor() {
  while (!g_stack.empty()) {
    auto& n = g_stack.back();
    u64 todo = n.backtrack & ~n.done & ~n.sleep & n.enabled;
    if (todo) {
      int c = __builtin_ctzll(todo);
      n.chosen = c;
      n.done |= 1ULL << c;
      return true;
    }
    g_stack.pop_back();
  }
  return false;
}
bool next_delay() {
  while (!g_dstack.empty()) {
    auto& n = g_dstack.back();
    if (n.opt < n.max) {
      ++n.opt;
      return true;
    }
    g_dstack.pop_back();
  }
  return false;
}

void on_alarm(int) {
  // Only async-signal-safe as far as it matters: the process ends here.
  if (g_active) fatal("hang", "the execution does not end: no progress within the time limit");
}

void explore_here(const std::function<void()>& body, const std::function<std::string()>& judge) {
  if (!g_key_made) {
    pthread_key_create(&g_key, on_exit);
    g_key_made = true;
  }
  g_stack.clear();
  g_dstack.clear();
  signal(SIGALRM, on_alarm);
  struct At_end {
    ~At_end() { alarm(0); }
  } at_end;
  // The first execution only initialises what is initialised on first use, so that the others can be replayed.
  for (bool first = true;; first = false) {
    begin_execution();
    g_race = false;
    alarm(g_opt.seconds);
    if (first) {
      g_free_run = true;
      g_delays_left = 0;
    }
    body();
    end_execution();
    if (first) {
      g_dstack.clear();
      if (!g_res->violated()) continue;
    }
    if (g_free_run) {
      ++g_res->pruned;
    } else {
      ++g_res->executions;
    }
    if (g_res->violated()) {
      describe_schedule();
      return;
    }
    auto s = judge();
    if (!s.empty()) {
      auto c = s.find(": ");
      violation(s.substr(0, c).c_str());
      add_text("%s", s.c_str());
      describe_schedule();
      return;
    }
    bool more = g_opt.strategy == Options::DPOR ? next_dpor() : next_delay();
    if (!more) return;
    if (g_opt.max_executions && g_res->executions + g_res->pruned >= g_opt.max_executions) {
      g_res->complete = false;
      return;
    }
  }
}

}  // namespace

Result explore(const Options& options, const std::function<void()>& body, const std::function<std::string()>& judge) {
  g_opt = options;
  if (!options.fork) {
    static Result r;
    r = Result{};
    g_res = &r;
    explore_here(body, judge);
    return r;
  }
  auto* shared = static_cast<Result*>(
      mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  new (shared) Result;
  g_res = shared;
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    explore_here(body, judge);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Result r = *shared;
  munmap(shared, sizeof(Result));
  if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77)) && !r.violated()) {
    snprintf(r.key, sizeof r.key, "crash");
    if (WIFSIGNALED(st))
      snprintf(r.text, sizeof r.text, "the process was ended by signal %d (%s) in execution %lu", WTERMSIG(st),
               strsignal(WTERMSIG(st)), static_cast<unsigned long>(r.executions + r.pruned + 1));
    else
      snprintf(r.text, sizeof r.text, "the process ended with status %d", WEXITSTATUS(st));
  }
  return r;
}

void point(const void* object) {
  if (in_session()) sched_point(K_USER, true, reinterpret_cast<uptr>(object));
}
std::size_t live_threads() { return g_live; }
std::size_t max_live_threads() { return g_max_live; }
int self_id() { return self ? self->id : 0; }
std::size_t created_threads() { return g_threads.size() - 1; }

// ---------------------------------------------------------------- threads

namespace {

int create_thread(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  sched_point(K_CREATE, false, 0);
  int slot = -1;
  for (int i = 1; i < SLOTS && slot < 0; ++i)
    if (!g_slots[i].used) slot = i;
  if (slot < 0) return EAGAIN;
  auto& s = g_slots[slot];
  if (!s.stack)
    s.stack = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  auto* t = new (__libc_malloc(sizeof(Thread))) Thread;
  t->id = static_cast<int>(g_threads.size());
  t->slot = slot;
  t->fn = fn;
  t->arg = arg;
  t->pending = {K_START, false, 0};
  if (attr) {
    int ds = 0;
    pthread_attr_getdetachstate(attr, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
  }
  s.used = true;
  t->vc = s.last;
  t->vc.join(self->vc);
  if (t->vc.c[slot] < s.clock) t->vc.c[slot] = s.clock;
  ++t->vc.c[slot];
  release_tick(self);
  t->dvc = self->dvc;
  g_threads.push_back(t);
  ++g_unjoined;
  ++g_live;
  if (g_live > g_max_live) g_max_live = g_live;
  g_multi = true;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, s.stack, STACK);
  bool act = g_active;
  int rc = real_create(&t->real, &a, trampoline, t);
  g_active = act;
  pthread_attr_destroy(&a);
  if (rc != 0) fatal("broken", "a thread could not be created");
  *out = t->real;
  return 0;
}

int join_thread(pthread_t th, void** ret) {
  Thread* t = nullptr;
  for (auto* x : g_threads)
    if (x->id != 0 && !x->joined && pthread_equal(x->real, th)) t = x;
  if (!t) return real_join(th, ret);
  self->wait_addr = reinterpret_cast<uptr>(t);
  sched_point(K_JOIN, false, 0);
  int rc = real_join(th, ret);
  t->joined = true;
  self->vc.join(t->vc);
  auto& s = g_slots[t->slot];
  s.used = false;
  s.last = t->vc;
  s.clock = t->vc.c[t->slot] + 1;
  if (--g_unjoined == 0) g_multi = false;
  return rc;
}

void lock_mutex(uptr m) {
  sched_point(K_LOCK, true, m);
  auto& x = g_mutexes[m];
  if (x.owner == self->id) {
    auto type = reinterpret_cast<pthread_mutex_t*>(m)->__data.__kind & 3;
    if (type != PTHREAD_MUTEX_RECURSIVE_NP) fatal("deadlock", "a thread locks a mutex it holds");
  }
  x.owner = self->id;
  ++x.depth;
  self->vc.join(x.vc);
  self->vc.join(x.rvc);
}
void unlock_mutex(uptr m) {
  sched_point(K_UNLOCK, true, m);
  auto& x = g_mutexes[m];
  if (x.readers > 0) {
    --x.readers;
    x.rvc.join(self->vc);
    release_tick(self);
    return;
  }
  if (x.owner != self->id) fatal("unlock", "a mutex is unlocked by a thread that does not hold it");
  if (--x.depth > 0) return;
  x.owner = -1;
  x.vc = self->vc;
  release_tick(self);
}
bool try_lock(uptr m) {
  sched_point(K_TRYLOCK, true, m);
  auto& x = g_mutexes[m];
  if (x.owner != -1 || x.readers > 0) return false;
  x.owner = self->id;
  ++x.depth;
  self->vc.join(x.vc);
  self->vc.join(x.rvc);
  return true;
}

void dpor_edge(Thread* to) {  // the running thread enables `to`
  if (g_opt.strategy == Options::DPOR) to->dvc.join(self->dvc, MAXT);
}

long futex_op(uptr a, int op, long val, long timeout, bool& handled) {
  handled = true;
  switch (op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME)) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
      sched_point(K_FWAIT, true, a);
      if (*reinterpret_cast<volatile int*>(a) != static_cast<int>(val)) {
        errno = EAGAIN;
        return -1;
      }
      Thread* t = self;
      t->wait_addr = a;
      t->woken = false;
      t->timed = timeout != 0;
      t->timed_out = false;
      sched_point(K_WOKEN, false, 0);
      t->wait_addr = 0;
      if (t->timed_out) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
      sched_point(K_FWAKE, true, a);
      long n = 0;
      for (auto* t : g_threads)
        if (n < val && !t->finished && t->pending.kind == K_WOKEN && !t->woken && t->wait_addr == a) {
          t->woken = true;
          dpor_edge(t);
          ++n;
        }
      return n;
    }
    default:
      handled = false;
      return 0;
  }
}

int cond_wait(uptr c, uptr m, bool timed) {
  sched_point(K_CWAIT, true, c);
  auto& x = g_mutexes[m];
  if (x.owner != self->id) fatal("unlock", "a condition is waited for without holding the mutex");
  int depth = x.depth;
  x.depth = 0;
  x.owner = -1;
  x.vc = self->vc;
  release_tick(self);
  Thread* t = self;
  t->wait_addr = c;
  t->woken = false;
  t->timed = timed;
  t->timed_out = false;
  sched_point(K_WOKEN, false, 0);
  bool to = t->timed_out;
  t->wait_addr = 0;
  lock_mutex(m);
  g_mutexes[m].depth = depth;
  return to ? ETIMEDOUT : 0;
}
void cond_signal(uptr c, bool all) {
  sched_point(K_CSIGNAL, true, c);
  for (auto* t : g_threads)
    if (!t->finished && t->pending.kind == K_WOKEN && !t->woken && t->wait_addr == c) {
      t->woken = true;
      dpor_edge(t);
      if (!all) break;
    }
}

Sync* sync_at(uptr a) { return find_sync(a, true); }

void yielded() {
  Thread* t = self;
  if (++t->yields > 100) {
    t->yields = 0;
    t->woken = false;
    auto a = t->spin_addr;
    t->spin_addr = 0;
    t->await_version = g_commits;
    sched_point(K_AWAIT, false, 0);
    t->spin_addr = a;
    t->woken = false;
  }
}

}  // namespace
}  // namespace kmc::sched

using namespace kmc::sched;

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  REAL(real_create, "pthread_create");
  if (!in_session()) return real_create(out, attr, fn, arg);
  return create_thread(out, attr, fn, arg);
}
int pthread_join(pthread_t th, void** ret) {
  REAL(real_join, "pthread_join");
  if (!in_session()) return real_join(th, ret);
  return join_thread(th, ret);
}
int pthread_detach(pthread_t th) {
  if (in_session())
    for (auto* x : g_threads)
      if (x->id != 0 && pthread_equal(x->real, th)) x->detached = true;
  return REAL(real_detach, "pthread_detach")(th);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!in_session()) return REAL(real_mlock, "pthread_mutex_lock")(m);
  lock_mutex(reinterpret_cast<uptr>(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!in_session()) return REAL(real_mtry, "pthread_mutex_trylock")(m);
  return try_lock(reinterpret_cast<uptr>(m)) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!in_session()) return REAL(real_munlock, "pthread_mutex_unlock")(m);
  unlock_mutex(reinterpret_cast<uptr>(m));
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!in_session()) return REAL(real_rdlock, "pthread_rwlock_rdlock")(m);
  sched_point(K_RDLOCK, true, reinterpret_cast<uptr>(m));
  auto& x = g_mutexes[reinterpret_cast<uptr>(m)];
  ++x.readers;
  self->vc.join(x.vc);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!in_session()) return REAL(real_wrlock, "pthread_rwlock_wrlock")(m);
  lock_mutex(reinterpret_cast<uptr>(m));
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!in_session()) return REAL(real_tryrdlock, "pthread_rwlock_tryrdlock")(m);
  sched_point(K_TRYLOCK, true, reinterpret_cast<uptr>(m));
  auto& x = g_mutexes[reinterpret_cast<uptr>(m)];
  if (x.owner != -1) return EBUSY;
  ++x.readers;
  self->vc.join(x.vc);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (!in_session()) return REAL(real_trywrlock, "pthread_rwlock_trywrlock")(m);
  return try_lock(reinterpret_cast<uptr>(m)) ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!in_session()) return REAL(real_rwunlock, "pthread_rwlock_unlock")(m);
  unlock_mutex(reinterpret_cast<uptr>(m));
  return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!in_session()) return REAL(real_cwait, "pthread_cond_wait")(c, m);
  return cond_wait(reinterpret_cast<uptr>(c), reinterpret_cast<uptr>(m), false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (!in_session()) return REAL(real_ctwait, "pthread_cond_timedwait")(c, m, ts);
  return cond_wait(reinterpret_cast<uptr>(c), reinterpret_cast<uptr>(m), true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
  if (!in_session()) return REAL(real_ccwait, "pthread_cond_clockwait")(c, m, k, ts);
  return cond_wait(reinterpret_cast<uptr>(c), reinterpret_cast<uptr>(m), true);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!in_session()) return REAL(real_csignal, "pthread_cond_signal")(c);
  cond_signal(reinterpret_cast<uptr>(c), false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!in_session()) return REAL(real_cbroadcast, "pthread_cond_broadcast")(c);
  cond_signal(reinterpret_cast<uptr>(c), true);
  return 0;
}

int sem_wait(sem_t* s) {
  if (!in_session()) return REAL(real_sem_wait, "sem_wait")(s);
  auto a = reinterpret_cast<uptr>(s);
  sched_point(K_SWAIT, true, a);
  --*reinterpret_cast<volatile int*>(s);
  self->vc.join(sync_at(a)->rel);
  return 0;
}
int sem_trywait(sem_t* s) {
  if (!in_session()) return REAL(real_sem_trywait, "sem_trywait")(s);
  auto a = reinterpret_cast<uptr>(s);
  sched_point(K_SPOST, true, a);
  if (*reinterpret_cast<volatile int*>(s) <= 0) {
    errno = EAGAIN;
    return -1;
  }
  --*reinterpret_cast<volatile int*>(s);
  self->vc.join(sync_at(a)->rel);
  return 0;
}
int sem_post(sem_t* s) {
  if (!in_session()) return REAL(real_sem_post, "sem_post")(s);
  auto a = reinterpret_cast<uptr>(s);
  sched_point(K_SPOST, true, a);
  ++*reinterpret_cast<volatile int*>(s);
  sync_at(a)->rel.join(self->vc);
  release_tick(self);
  return 0;
}

int sched_yield() {
  if (!in_session()) return REAL(real_yield, "sched_yield")();
  yielded();
  return 0;
}
int nanosleep(const timespec* a, timespec* b) {
  if (!in_session()) return REAL(real_nanosleep, "nanosleep")(a, b);
  yielded();
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) {
  if (!in_session()) return REAL(real_clock_nanosleep, "clock_nanosleep")(c, f, a, b);
  yielded();
  return 0;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && in_session()) {
    bool handled = false;
    // The arguments op and value are ints.
    long r = futex_op(static_cast<uptr>(a), static_cast<int>(b), static_cast<int>(c), d, handled);
    if (handled) return r;
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}

// The representations are glibc's (2: done) and the ABI's (first byte: done).
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!in_session()) return REAL(real_once, "pthread_once")(o, fn);
  auto a = reinterpret_cast<uptr>(o);
  if (*o == 2) {
    if (g_multi) {
      if (g_opt.fine) sched_point(K_ATOMIC, false, a);
      self->vc.join(sync_at(a)->rel);
    }
    return 0;
  }
  sched_point(K_ONCE, true, a);
  if (*o == 2) {
    self->vc.join(sync_at(a)->rel);
    return 0;
  }
  g_onces[a].runner = self->id;
  try {
    fn();
  } catch (...) {
    g_onces[a].runner = -1;
    throw;
  }
  g_onces[a].runner = -1;
  sync_at(a)->rel = self->vc;
  release_tick(self);
  *o = 2;
  return 0;
}

int __cxa_guard_acquire(void* g) {
  if (!in_session()) return REAL(real_guard_acquire, "__cxa_guard_acquire")(g);
  auto a = reinterpret_cast<uptr>(g);
  if (*static_cast<volatile char*>(g)) {
    self->vc.join(sync_at(a)->rel);
    return 0;
  }
  sched_point(K_ONCE, true, a);
  if (*static_cast<volatile char*>(g)) {
    self->vc.join(sync_at(a)->rel);
    return 0;
  }
  g_onces[a].runner = self->id;
  return 1;
}
void __cxa_guard_release(void* g) {
  if (!in_session()) return REAL(real_guard_release, "__cxa_guard_release")(g);
  auto a = reinterpret_cast<uptr>(g);
  g_onces[a].runner = -1;
  sync_at(a)->rel = self->vc;
  release_tick(self);
  *static_cast<volatile char*>(g) = 1;
}
void __cxa_guard_abort(void* g) {
  if (!in_session()) return REAL(real_guard_abort, "__cxa_guard_abort")(g);
  g_onces[reinterpret_cast<uptr>(g)].runner = -1;
}

// ---------------------------------------------------------------- allocation

#define RACY (g_multi && in_session())
#define PC reinterpret_cast<uptr>(__builtin_return_address(0))
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (RACY && p) on_alloc(p, malloc_usable_size(p));
  return p;
}
void* calloc(size_t n, size_t m) {
  void* p = __libc_calloc(n, m);
  if (RACY && p) on_alloc(p, malloc_usable_size(p));
  return p;
}
void free(void* p) {
  if (RACY && p) on_free(p, PC);
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  if (RACY && p) on_free(p, PC);
  void* q = __libc_realloc(p, n);
  if (RACY && q) on_alloc(q, malloc_usable_size(q));
  return q;
}
void* memalign(size_t al, size_t n) {
  void* p = __libc_memalign(al, n);
  if (RACY && p) on_alloc(p, malloc_usable_size(p));
  return p;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

// ---------------------------------------------------------------- instrumentation

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                         \
  void __tsan_read##n(void* a) { access(reinterpret_cast<uptr>(a), n, false, PC); }                   \
  void __tsan_write##n(void* a) { access(reinterpret_cast<uptr>(a), n, true, PC); }                   \
  void __tsan_unaligned_read##n(void* a) { access(reinterpret_cast<uptr>(a), n, false, PC); }         \
  void __tsan_unaligned_write##n(void* a) { access(reinterpret_cast<uptr>(a), n, true, PC); }         \
  void __tsan_read_write##n(void* a) { access(reinterpret_cast<uptr>(a), n, true, PC); }              \
  void __tsan_unaligned_read_write##n(void* a) { access(reinterpret_cast<uptr>(a), n, true, PC); }    \
  void __tsan_volatile_read##n(void* a) { access(reinterpret_cast<uptr>(a), n, false, PC); }          \
  void __tsan_volatile_write##n(void* a) { access(reinterpret_cast<uptr>(a), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access(reinterpret_cast<uptr>(a), n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { access(reinterpret_cast<uptr>(a), n, true, PC); }
void __tsan_vptr_update(void** a, void* v) {
  if (*a != v) access(reinterpret_cast<uptr>(a), 8, true, PC);
}
void __tsan_vptr_read(void** a) { access(reinterpret_cast<uptr>(a), 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  access(reinterpret_cast<uptr>(s), n, false, PC);
  access(reinterpret_cast<uptr>(d), n, true, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  access(reinterpret_cast<uptr>(s), n, false, PC);
  access(reinterpret_cast<uptr>(d), n, true, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
  access(reinterpret_cast<uptr>(d), n, true, PC);
  return memset(d, c, n);
}

}  // extern "C"

namespace {

void touch(uptr a, std::size_t n, bool w, uptr pc, Sync* s) {
  Thread* t = g_cur;
  Page* p = find_page(a >> 12, true);
  for (std::size_t i = 0; i < n && ((a & 4095) + i) < 4096; ++i) {
    Cell& c = p->cells[(a & 4095) + i];
    u32 lw = c.w & ~FLAG;
    if (lw && !hb(t, lw)) report_race(a, w, pc, true, lw >> CLK_BITS, c.wpc, " atomically");
    if (w) {
      if (c.r & FLAG) {
        auto& rs = g_readsets[c.r & ~FLAG];
        for (int k = 0; k < SLOTS; ++k)
          if (rs.c[k] > t->vc.c[k]) report_race(a, w, pc, false, k, c.rpc, " atomically");
      } else if (c.r && !hb(t, c.r)) {
        report_race(a, w, pc, false, c.r >> CLK_BITS, c.rpc, " atomically");
      }
    }
    c.w |= FLAG;
  }
  (w ? s->aw : s->ar).c[t->slot] = t->vc.c[t->slot];
}

bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

inline void before_atomic(uptr a, bool w, int mo) {
  if (g_opt.fine || mo == __ATOMIC_SEQ_CST) sched_point(K_ATOMIC, w, a);
}
inline void acquire(Sync* s, int mo) {
  if (is_acq(mo)) g_cur->vc.join(s->rel);
  else g_cur->acqf.join(s->rel);
}

#define MULTI (g_multi && g_active)

template <class T>
T at_load(volatile T* p, int mo, uptr pc) {
  if (!MULTI) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  auto a = reinterpret_cast<uptr>(p);
  Thread* t = g_cur;
  if (!spinning(t, a, sync_at(a))) before_atomic(a, false, mo);
  Sync* s = sync_at(a);
  looked(t, a, s);
  touch(a, sizeof(T), false, pc, s);
  acquire(s, mo);
  return __atomic_load_n(p, __ATOMIC_SEQ_CST);
}
template <class T>
void at_store(volatile T* p, T v, int mo, uptr pc) {
  if (!MULTI) return __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
  auto a = reinterpret_cast<uptr>(p);
  before_atomic(a, true, mo);
  Thread* t = g_cur;
  t->spin_addr = 0;
  t->yields = 0;
  Sync* s = sync_at(a);
  touch(a, sizeof(T), true, pc, s);
  s->rel = is_rel(mo) ? t->vc : t->relf;
  ++s->version;
  __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
  if (is_rel(mo)) release_tick(t);
}
template <class T, class F>
T at_rmw(volatile T* p, F f, int mo, uptr pc) {
  auto a = reinterpret_cast<uptr>(p);
  if (!MULTI) {
    T old = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    while (!__atomic_compare_exchange_n(p, &old, f(old), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
    }
    return old;
  }
  Thread* t = g_cur;
  if (!spinning(t, a, sync_at(a))) before_atomic(a, true, mo);
  Sync* s = sync_at(a);
  touch(a, sizeof(T), true, pc, s);
  T old = *p;
  T neu = f(old);
  acquire(s, mo);
  s->rel.join(is_rel(mo) ? t->vc : t->relf);
  if (old == neu) {
    looked(t, a, s);
  } else {
    t->spin_addr = 0;
    t->yields = 0;
    ++s->version;
  }
  *p = neu;
  if (is_rel(mo)) release_tick(t);
  return old;
}
template <class T>
bool at_cas(volatile T* p, T* expected, T v, int mo, int fmo, uptr pc) {
  if (!MULTI) return __atomic_compare_exchange_n(p, expected, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  auto a = reinterpret_cast<uptr>(p);
  Thread* t = g_cur;
  if (!spinning(t, a, sync_at(a))) before_atomic(a, true, mo);
  Sync* s = sync_at(a);
  T old = *p;
  if (old != *expected) {
    touch(a, sizeof(T), false, pc, s);
    looked(t, a, s);
    acquire(s, fmo);
    *expected = old;
    return false;
  }
  touch(a, sizeof(T), true, pc, s);
  acquire(s, mo);
  s->rel.join(is_rel(mo) ? t->vc : t->relf);
  t->spin_addr = 0;
  t->yields = 0;
  ++s->version;
  *p = v;
  if (is_rel(mo)) release_tick(t);
  return true;
}

}  // namespace

extern "C" {

#define ATOMICS(bits, T)                                                                                             \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return at_load(const_cast<volatile T*>(p), mo, PC); }  \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at_store(p, v, mo, PC); }                           \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return at_rmw(p, [v](T) { return v; }, mo, PC); }   \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) {                                                    \
    return at_rmw(p, [v](T o) { return static_cast<T>(o + v); }, mo, PC);                                            \
  }                                                                                                                  \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) {                                                    \
    return at_rmw(p, [v](T o) { return static_cast<T>(o - v); }, mo, PC);                                            \
  }                                                                                                                  \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) {                                                    \
    return at_rmw(p, [v](T o) { return static_cast<T>(o & v); }, mo, PC);                                            \
  }                                                                                                                  \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) {                                                     \
    return at_rmw(p, [v](T o) { return static_cast<T>(o | v); }, mo, PC);                                            \
  }                                                                                                                  \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) {                                                    \
    return at_rmw(p, [v](T o) { return static_cast<T>(o ^ v); }, mo, PC);                                            \
  }                                                                                                                  \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) {                                                   \
    return at_rmw(p, [v](T o) { return static_cast<T>(~(o & v)); }, mo, PC);                                         \
  }                                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) {                     \
    return at_cas(p, e, v, mo, fmo, PC);                                                                             \
  }                                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {                       \
    return at_cas(p, e, v, mo, fmo, PC);                                                                             \
  }                                                                                                                  \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {                           \
    at_cas(p, &e, v, mo, fmo, PC);                                                                                   \
    return e;                                                                                                        \
  }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

void __tsan_atomic_thread_fence(int mo) {
  if (!MULTI) return;
  Thread* t = g_cur;
  if (is_acq(mo)) t->vc.join(t->acqf);
  if (is_rel(mo)) {
    t->relf = t->vc;
    release_tick(t);
  }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
