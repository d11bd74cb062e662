// Deterministic single-process stand-in for the Charm++ runtime.
//
// The generated superB program (built as a shared object against include/) runs unmodified on top of this: every message,
// reduction, CkIO operation, checkpoint and exit is an event in one pending queue ordered by virtual time; the plan file
// decides the extra delay of every event, which chares migrate when, and where the program crashes and restarts.
#include "charm++.h"
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <link.h>
#include <malloc.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <csignal>
#include <execinfo.h>

using csim::Entry;
using csim::Msg;
using csim::Where;
typedef unsigned long long u64;

namespace {
[[noreturn]] void finish(const char *status, const std::string &detail, int rc);

struct Fiber;
struct Waiter {
  Fiber *f;
  std::vector<std::pair<int, std::pair<bool, int>>> what; // entry, (has refnum, refnum)
  Msg *got = nullptr;
  int which = -1;
};
struct Chare {
  int type, array;
  Where w;
  void *mem = nullptr;
  bool alive = false;
  Msg *ctor = nullptr;
  std::map<int, std::vector<Msg *>> buf; // buffered messages for whens
  std::vector<Waiter *> waiting;
  std::string label;
  int redno = 0;
  std::map<long, int> secredno;
};
struct Fiber {
  ucontext_t ctx;
  char *stack = nullptr;
  std::function<void()> fn;
  Chare *c = nullptr;
  bool done = false;
};
struct Event {
  u64 seq;
  double at;
  std::string key;
  std::string src, dst, name;
  Chare *dest = nullptr; // chare it is delivered to (held until constructed)
  bool ctor = false;
  std::function<void()> run;
};
struct Array {
  int type;
  int n[3];
  std::vector<Chare *> e;
};
struct Reduction {
  std::vector<std::pair<std::string, std::vector<char>>> parts;
  CkReduction::reducerType t;
  CkCallback cb;
};
struct IoFile {
  std::string name;
  int fd = -1;
};
struct IoSession {
  int file;
  size_t bytes, offset, written = 0;
  CkCallback complete;
  bool done = false;
};

std::map<int, csim::ChareType> types;
std::map<int, Entry> entries;
std::vector<std::pair<void *, size_t>> readonlies;
std::vector<Array> arrays;
std::map<void *, Chare *> by_mem;
std::vector<Event *> pending;
std::vector<Event *> held;
std::map<std::string, int> keycount;
std::map<std::pair<int, int>, Reduction> reds;      // (array, redno)
std::map<std::pair<long, int>, Reduction> secreds;  // (section, redno)
std::map<std::string, std::shared_ptr<csim::Section>> sections;
std::map<int, IoFile> iofiles;
std::map<int, IoSession> iosessions;
int io_next = 1;
Where g_constructing;
Chare *cur = nullptr;
Fiber *curf = nullptr;
ucontext_t sched_ctx;
double vnow = 0;
u64 seqno = 0, steps = 0;
u64 hash_run = 1469598103934665603ULL;
bool exited = false;
int exit_rc = 0;
int nckpt = 0;
int crash_after = -1; // in the doomed process: events left before it dies
bool is_doomed = false;
std::map<std::string, long> counters;
std::string resfile;
std::vector<std::string> applied;

// ---- plan ----
struct Rand {
  u64 seed;
  double p;
  int max;
  std::string what;
};
std::vector<Rand> rands;
std::map<std::string, int> dstd, srcd, entd, evd;
struct Mig {
  u64 step;
  std::string who;
};
std::vector<Mig> migs;
std::vector<std::pair<int, int>> crashes;
u64 redseed = 0;
u64 cap = 2000000;
int perturb = 0;
std::vector<char> poison(void *p, size_t n) { memset(p, 0xA5, n); return {}; }

u64 mix(u64 x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}
u64 hstr(const std::string &s) {
  u64 h = 1469598103934665603ULL;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ULL;
  return h;
}

void post(const std::string &src, const std::string &dst, const std::string &name, Chare *dest, std::function<void()> run, bool ctor = false) {
  Event *e = new Event;
  e->seq = seqno++;
  e->src = src;
  e->dst = dst;
  e->name = name;
  std::string k = src + ">" + dst + ":" + name;
  e->key = k + "#" + std::to_string(keycount[k]++);
  e->dest = dest;
  e->run = std::move(run);
  e->ctor = ctor;
  double d = 1;
  auto it = dstd.find(dst);
  if (it != dstd.end())
    d += it->second, counters["delay_by_receiver"]++;
  it = srcd.find(src);
  if (it != srcd.end())
    d += it->second, counters["delay_by_sender"]++;
  it = entd.find(name);
  if (it != entd.end())
    d += it->second, counters["delay_by_entry"]++;
  it = evd.find(e->key);
  if (it != evd.end())
    d += it->second, counters["delay_one_message"]++;
  for (auto &r : rands) {
    if (!r.what.empty() && name.find(r.what) == std::string::npos)
      continue;
    u64 h = mix(hstr(e->key) ^ mix(r.seed));
    if ((h >> 11) * (1.0 / 9007199254740992.0) < r.p) {
      int x = 1 + (int)(mix(h) % (u64)r.max);
      d += x;
      counters["delay_one_message"]++;
      applied.push_back("ev " + e->key + " " + std::to_string(x));
    }
  }
  e->at = vnow + d;
  pending.push_back(e);
}

// ---- fibers ----
const size_t STACK = 8u << 20;
std::vector<char *> stack_pool;
void fiber_main(unsigned lo, unsigned hi) {
  Fiber *f = (Fiber *)(((u64)hi << 32) | lo);
  f->fn();
  f->done = true;
  swapcontext(&f->ctx, &sched_ctx);
}
void resume(Fiber *f) {
  // Resuming from inside another fiber is done on top of it: the scheduler context is saved and restored.
  ucontext_t save = sched_ctx;
  Fiber *pf = curf;
  Chare *pc = cur;
  curf = f;
  cur = f->c;
  swapcontext(&sched_ctx, &f->ctx);
  sched_ctx = save;
  curf = pf;
  cur = pc;
  if (f->done) {
    stack_pool.push_back(f->stack);
    delete f;
  }
}
Fiber *spawn(Chare *c, std::function<void()> fn) {
  Fiber *f = new Fiber;
  f->c = c;
  f->fn = std::move(fn);
  if (stack_pool.empty()) {
    f->stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (f->stack == MAP_FAILED)
      finish("simulator", "no memory for a fiber stack", 3);
    mprotect(f->stack, 4096, PROT_NONE);
  } else {
    f->stack = stack_pool.back();
    stack_pool.pop_back();
  }
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack;
  f->ctx.uc_stack.ss_size = STACK;
  f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, (void (*)())fiber_main, 2, (unsigned)((u64)f & 0xffffffffu), (unsigned)((u64)f >> 32));
  return f;
}
void yield_fiber() {
  Fiber *f = curf;
  swapcontext(&f->ctx, &sched_ctx);
}

Chare *find_chare(int array, int x, int y, int z) {
  if (array < 0 || array >= (int)arrays.size())
    finish("abort", "message to an unset proxy", 1);
  Array &a = arrays[array];
  if (x < 0 || y < 0 || z < 0 || x >= a.n[0] || y >= a.n[1] || z >= a.n[2]) {
    std::ostringstream o;
    o << "message to element (" << x << "," << y << "," << z << ") outside the chare array";
    finish("abort", o.str(), 1);
  }
  return a.e[(z * a.n[1] + y) * a.n[0] + x];
}

void deliver(Chare *c, int ep, Msg *m) {
  const Entry &e = entries.at(ep);
  if (e.kind == csim::K_PLAIN) {
    Chare *pc = cur;
    cur = c;
    e.invoke(c->mem, m);
    cur = pc;
  } else if (e.kind == csim::K_SDAG) {
    Fiber *f = spawn(c, [c, m, &e]() { e.invoke(c->mem, m); });
    resume(f);
  } else {
    for (size_t i = 0; i < c->waiting.size(); i++) {
      Waiter *w = c->waiting[i];
      for (size_t k = 0; k < w->what.size(); k++)
        if (w->what[k].first == ep && (!w->what[k].second.first || w->what[k].second.second == m->refnum)) {
          w->got = m;
          w->which = (int)k;
          c->waiting.erase(c->waiting.begin() + i);
          resume(w->f);
          return;
        }
    }
    c->buf[ep].push_back(m);
    counters["message_buffered_for_a_later_when"]++;
  }
}

std::string src_label() { return cur ? cur->label : "R"; }

void post_msg(Chare *c, int ep, Msg *m) {
  post(src_label(), c->label, entries.at(ep).name, c, [c, ep, m]() { deliver(c, ep, m); });
}

void new_chare_mem(Chare *c) {
  const auto &t = types.at(c->type);
  if (!c->mem) {
    c->mem = aligned_alloc(64, (t.size + 63) / 64 * 64);
    by_mem[c->mem] = c;
  }
  memset(c->mem, perturb ? perturb : 0xA5, t.size);
  g_constructing = c->w;
}

std::vector<char> pack(Chare *c) {
  std::vector<char> b;
  Chare *pc = cur;
  cur = c;
  PUP::er sz(PUP::er::SIZING, nullptr);
  types.at(c->type).pup(c->mem, sz);
  PUP::er p(PUP::er::PACKING, &b);
  types.at(c->type).pup(c->mem, p);
  if (sz.size() != b.size())
    finish("abort", "PUP sizing and packing passes disagree (" + std::to_string(sz.size()) + " and " + std::to_string(b.size()) + " bytes)", 1);
  cur = pc;
  return b;
}
void unpack(Chare *c, std::vector<char> &b) {
  Chare *pc = cur;
  cur = c;
  PUP::er p(PUP::er::UNPACKING, &b);
  types.at(c->type).pup(c->mem, p);
  if (p.pos != b.size())
    finish("abort", "PUP packing and unpacking passes disagree (" + std::to_string(b.size()) + " and " + std::to_string(p.pos) + " bytes)", 1);
  cur = pc;
}

void migrate(Chare *c) {
  const auto &t = types.at(c->type);
  std::vector<char> b = pack(c);
  t.destroy(c->mem);
  new_chare_mem(c);
  t.construct_migrated(c->mem);
  unpack(c, b);
  counters["migration"]++;
}

// ---- writable data of the user program ----
struct Seg {
  char *p;
  std::vector<char> img;
};
std::vector<Seg> segs;
std::string user_so;
int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || user_so != i->dlpi_name)
    return 0;
  size_t pg = 4096;
  std::vector<std::pair<size_t, size_t>> relro;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO)
      relro.push_back({i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz + pg - 1) / pg * pg});
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const auto &h = i->dlpi_phdr[k];
    if (h.p_type != PT_LOAD || !(h.p_flags & PF_W))
      continue;
    size_t a = i->dlpi_addr + h.p_vaddr, e = a + h.p_memsz;
    for (auto &r : relro)
      if (r.first <= a && r.second > a)
        a = std::min(e, r.second);
    if (a < e)
      segs.push_back({(char *)a, std::vector<char>((char *)a, (char *)e)});
  }
  return 0;
}

void restart(std::vector<std::pair<Chare *, std::vector<char>>> &blobs, const CkCallback &cb) {
  for (auto *e : pending)
    delete e;
  pending.clear();
  for (auto *e : held)
    delete e;
  held.clear();
  reds.clear();
  secreds.clear();
  sections.clear();
  for (auto &f : iofiles)
    if (f.second.fd >= 0)
      close(f.second.fd);
  iofiles.clear();
  iosessions.clear();
  std::vector<std::vector<char>> ro;
  for (auto &r : readonlies)
    ro.emplace_back((char *)r.first, (char *)r.first + r.second);
  for (auto &s : segs)
    memcpy(s.p, s.img.data(), s.img.size());
  for (size_t i = 0; i < readonlies.size(); i++)
    memcpy(readonlies[i].first, ro[i].data(), ro[i].size());
  for (auto &b : blobs) {
    b.first->redno = 0;
    b.first->secredno.clear();
    new_chare_mem(b.first);
    types.at(b.first->type).construct_migrated(b.first->mem);
  }
  for (auto &b : blobs)
    unpack(b.first, b.second);
  counters["crash_and_restart_from_checkpoint"]++;
  cur = nullptr;
  cb.send(new CkReductionMsg);
}

void do_checkpoint(const CkCallback &cb) {
  int k = nckpt++;
  counters["checkpoint"]++;
  std::vector<std::pair<Chare *, std::vector<char>>> blobs;
  for (auto &a : arrays)
    for (auto *c : a.e)
      if (c->alive)
        blobs.push_back({c, pack(c)});
  if (!is_doomed)
    for (auto &cr : crashes)
      if (cr.first == k) {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
          is_doomed = true;
          crash_after = cr.second;
          break;
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) {
          if (WEXITSTATUS(st) == 78)
            counters["run_ended_before_the_planned_crash"]++;
        } else {
          // The doomed run itself failed before its crash and has already written its result.
          _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 1);
        }
        restart(blobs, cb);
        return;
      }
  cb.send(new CkReductionMsg);
}

std::string waiting_report() {
  std::ostringstream o;
  for (auto &a : arrays)
    for (auto *c : a.e) {
      if (!c->alive) {
        o << c->label << ":not-constructed ";
        continue;
      }
      for (auto *w : c->waiting) {
        o << c->label << ":";
        for (auto &x : w->what) {
          o << entries.at(x.first).name;
          if (x.second.first)
            o << "[" << x.second.second << "]";
          o << " ";
        }
      }
    }
  std::string s = o.str();
  return s.size() > 800 ? s.substr(0, 800) + "..." : s;
}

void finish(const char *status, const std::string &detail, int rc) {
  fflush(nullptr);
  if (is_doomed && std::string(status) == "exit")
    _exit(78); // ended before the planned crash: the restarted life goes on from the checkpoint
  std::ofstream f(resfile);
  f << "status " << status << "\n";
  std::string d = detail;
  std::replace(d.begin(), d.end(), '\n', ' ');
  f << "detail " << d << "\n";
  f << "rc " << exit_rc << "\n";
  f << "steps " << steps << "\n";
  f << "vtime " << (long)vnow << "\n";
  f << "hash " << std::hex << hash_run << std::dec << "\n";
  size_t np = pending.size() + held.size();
  f << "pending_at_end " << np << "\n";
  for (auto &c : counters)
    f << "count " << c.first << " " << c.second << "\n";
  for (auto &s : applied)
    f << "applied " << s << "\n";
  f.close();
  _exit(rc);
}

void on_signal(int s) {
  finish("signal", std::string("signal ") + strsignal(s) + " while executing " + (cur ? cur->label : "R"), 1);
}

void maybe_migrate() {
  for (auto &m : migs)
    if (m.step == steps && !exited) {
      for (auto &a : arrays)
        for (auto *c : a.e)
          if (c->label == m.who && c->alive && c->w.array > 0 && types.at(c->type).has_pup)
            migrate(c);
    }
}

void loop() {
  while (!exited) {
    if (pending.empty())
      finish("hang", "no message in flight, program has not exited; waiting: " + waiting_report(), 1);
    if (steps >= cap)
      finish("livelock", "more than " + std::to_string(cap) + " events; waiting: " + waiting_report(), 1);
    size_t b = 0;
    for (size_t i = 1; i < pending.size(); i++)
      if (pending[i]->at < pending[b]->at || (pending[i]->at == pending[b]->at && pending[i]->seq < pending[b]->seq))
        b = i;
    Event *e = pending[b];
    pending.erase(pending.begin() + b);
    if (e->at > vnow)
      vnow = e->at;
    if (e->dest && !e->dest->alive && !e->ctor) {
      held.push_back(e);
      continue;
    }
    if (is_doomed && crash_after-- <= 0)
      _exit(77);
    steps++;
    hash_run = (hash_run ^ hstr(e->key)) * 1099511628211ULL;
    counters["events"]++;
    e->run();
    if (e->ctor) {
      std::vector<Event *> h;
      h.swap(held);
      for (auto *x : h) {
        x->at = std::max(x->at, vnow);
        pending.push_back(x);
      }
    }
    delete e;
    maybe_migrate();
  }
  finish("exit", "", exit_rc);
}

template <class T, class F> void combine(std::vector<char> &a, const std::vector<char> &b, F f) {
  if (a.size() != b.size())
    finish("abort", "reduction contributions of different sizes", 1);
  T *x = (T *)a.data();
  const T *y = (const T *)b.data();
  for (size_t i = 0; i < a.size() / sizeof(T); i++)
    x[i] = f(x[i], y[i]);
}
CkReductionMsg *reduce(Reduction &r) {
  // The runtime combines contributions in tree order: any order.
  std::sort(r.parts.begin(), r.parts.end());
  if (redseed) {
    counters["reduction_order_shuffled"]++;
    for (size_t i = r.parts.size(); i > 1; i--)
      std::swap(r.parts[i - 1], r.parts[mix(redseed + i * 7919 + hash_run) % i]);
  }
  auto *m = new CkReductionMsg;
  for (size_t i = 0; i < r.parts.size(); i++) {
    auto &p = r.parts[i].second;
    if (i == 0) {
      m->data = p;
      continue;
    }
    using namespace CkReduction;
    switch (r.t) {
    case nop: break;
    case sum_int: combine<int>(m->data, p, [](int a, int b) { return a + b; }); break;
    case sum_long: combine<long>(m->data, p, [](long a, long b) { return a + b; }); break;
    case sum_float: combine<float>(m->data, p, [](float a, float b) { return a + b; }); break;
    case sum_double: combine<double>(m->data, p, [](double a, double b) { return a + b; }); break;
    case product_double: combine<double>(m->data, p, [](double a, double b) { return a * b; }); break;
    case max_int: combine<int>(m->data, p, [](int a, int b) { return std::max(a, b); }); break;
    case max_double: combine<double>(m->data, p, [](double a, double b) { return std::max(a, b); }); break;
    case min_int: combine<int>(m->data, p, [](int a, int b) { return std::min(a, b); }); break;
    case min_double: combine<double>(m->data, p, [](double a, double b) { return std::min(a, b); }); break;
    case logical_and: combine<int>(m->data, p, [](int a, int b) { return (int)(a && b); }); break;
    case logical_or: combine<int>(m->data, p, [](int a, int b) { return (int)(a || b); }); break;
    case logical_and_bool: combine<bool>(m->data, p, [](bool a, bool b) { return a && b; }); break;
    case logical_or_bool: combine<bool>(m->data, p, [](bool a, bool b) { return a || b; }); break;
    default: m->data.insert(m->data.end(), p.begin(), p.end());
    }
  }
  return m;
}
} // namespace

void csim_abort(const char *s) { finish("abort", s, 1); }
namespace PUP {
void csim_abort(const char *s) { finish("abort", s, 1); }
} // namespace PUP

namespace csim {
void register_type(int id, const ChareType &t) { types[id] = t; }
void register_entry(const Entry &e) { entries[e.ep] = e; }
void register_readonly(void *p, size_t n) { readonlies.push_back({p, n}); }
Where *constructing() { return &g_constructing; }
static int add_array(int type, int n0, int n1, int n2, bool single) {
  if (n0 < 1 || n1 < 1 || n2 < 1)
    finish("abort", "empty chare array", 1);
  Array a;
  a.type = type;
  a.n[0] = n0;
  a.n[1] = n1;
  a.n[2] = n2;
  int id = (int)arrays.size();
  for (int z = 0; z < n2; z++)
    for (int y = 0; y < n1; y++)
      for (int x = 0; x < n0; x++) {
        Chare *c = new Chare;
        c->type = type;
        c->array = id;
        c->w.x = x;
        c->w.y = y;
        c->w.z = z;
        c->w.array = id;
        c->label = single ? types.at(type).name : std::to_string(x) + "." + std::to_string(y) + "." + std::to_string(z);
        a.e.push_back(c);
      }
  arrays.push_back(a);
  return id;
}
int new_array(int type, Msg *ctor, int n0, int n1, int n2) {
  int id = add_array(type, n0, n1, n2, false);
  for (auto *c : arrays[id].e) {
    Msg *m = ctor->clone();
    post(src_label(), c->label, "constructor", c,
         [c, m]() {
           new_chare_mem(c);
           Chare *pc = cur;
           cur = c;
           types.at(c->type).construct(c->mem, m);
           cur = pc;
           c->alive = true;
           delete m;
         },
         true);
  }
  delete ctor;
  return id;
}
int new_singleton(int type) { return add_array(type, 1, 1, 1, true); }
void send(int array, int x, int y, int z, int ep, Msg *m) { post_msg(find_chare(array, x, y, z), ep, m); }
void broadcast(int array, int ep, Msg *m) {
  if (array < 0 || array >= (int)arrays.size())
    finish("abort", "broadcast to an unset proxy", 1);
  auto &e = arrays[array].e;
  for (size_t i = 0; i < e.size(); i++)
    post_msg(e[i], ep, i + 1 == e.size() ? m : m->clone());
}
static Chare *chare_of(void *o) {
  auto it = by_mem.find(o);
  if (it == by_mem.end())
    finish("simulator", "unknown chare object", 3);
  return it->second;
}
static Waiter *do_wait(void *o, std::vector<std::pair<int, std::pair<bool, int>>> what) {
  Chare *c = chare_of(o);
  auto *w = new Waiter;
  w->f = curf;
  w->what = std::move(what);
  for (size_t k = 0; k < w->what.size(); k++) {
    auto &b = c->buf[w->what[k].first];
    for (size_t i = 0; i < b.size(); i++)
      if (!w->what[k].second.first || b[i]->refnum == w->what[k].second.second) {
        w->got = b[i];
        w->which = (int)k;
        b.erase(b.begin() + i);
        return w;
      }
  }
  c->waiting.push_back(w);
  while (!w->got)
    yield_fiber();
  return w;
}
Msg *wait(void *o, int ep, bool hasref, int ref) {
  Waiter *w = do_wait(o, {{ep, {hasref, ref}}});
  Msg *m = w->got;
  delete w;
  return m;
}
int wait_any(void *o, const std::vector<int> &eps, Msg **out) {
  std::vector<std::pair<int, std::pair<bool, int>>> what;
  for (int e : eps)
    what.push_back({e, {false, 0}});
  Waiter *w = do_wait(o, what);
  *out = w->got;
  int k = w->which;
  delete w;
  return k;
}
void run_parallel(void *o, std::vector<std::function<void()>> &&f) {
  Chare *c = chare_of(o);
  Fiber *me = curf;
  int left = (int)f.size();
  bool sleeping = false;
  for (auto &g : f) {
    Fiber *x = spawn(c, [&]() {
      g();
      left--;
      if (left == 0 && sleeping) {
        sleeping = false;
        resume(me);
      }
    });
    resume(x);
  }
  if (left) {
    sleeping = true;
    while (left)
      yield_fiber();
  }
}
void contribute(const Where &w, const void *d, size_t n, CkReduction::reducerType t, const CkCallback &cb) {
  Chare *c = find_chare(w.array, w.x, w.y, w.z);
  auto id = std::make_pair(w.array, c->redno++);
  Reduction &r = reds[id];
  r.t = t;
  r.cb = cb;
  r.parts.push_back({c->label, std::vector<char>((const char *)d, (const char *)d + n)});
  if (r.parts.size() == arrays[w.array].e.size()) {
    CkReductionMsg *m = reduce(r);
    CkCallback cb2 = r.cb;
    reds.erase(id);
    Chare *pc = cur;
    cur = nullptr;
    cb2.send(m);
    cur = pc;
  }
}
void section_contribute(const Where &, CkSectionInfo &ck, const void *d, size_t n, CkReduction::reducerType t, const CkCallback &cb) {
  std::shared_ptr<Section> s;
  for (auto &x : sections)
    if (x.second->id == ck.sect)
      s = x.second;
  if (!s || !cur)
    finish("abort", "contribution to an unknown section", 1);
  auto id = std::make_pair(s->id, cur->secredno[s->id]++);
  ck.redno++;
  Reduction &r = secreds[id];
  r.t = t;
  r.cb = cb;
  r.parts.push_back({cur->label, std::vector<char>((const char *)d, (const char *)d + n)});
  if (r.parts.size() == s->e.size()) {
    CkReductionMsg *m = reduce(r);
    CkCallback cb2 = r.cb;
    secreds.erase(id);
    Chare *pc = cur;
    cur = nullptr;
    cb2.send(m);
    cur = pc;
  }
}
// Sections with the same members share one identity, so that re-creating one (after migration or restart) continues it.
std::shared_ptr<Section> new_section(int array, const std::vector<CkArrayIndex3D> &e) {
  std::ostringstream o;
  o << array;
  for (auto &i : e)
    o << "/" << i.x << "." << i.y << "." << i.z;
  auto &s = sections[o.str()];
  if (!s) {
    s = std::make_shared<Section>();
    s->id = (long)(hstr(o.str()) >> 1);
    s->array = array;
    s->e = e;
  }
  return s;
}
} // namespace csim

void CkGetSectionInfo(CkSectionInfo &c, CkMcastBaseMsg *m) { c.sect = m->_cookie.sect; }

void CkCallback::send(void *msg) const {
  if (exits) {
    CkExit(0);
    return;
  }
  if (ignore)
    return;
  const Entry &e = entries.at(ep);
  Msg *m = e.from_msg(msg);
  if (bcast)
    csim::broadcast(array, ep, m);
  else
    csim::send(array, x, y, z, ep, m);
}

double CkWallTimer() { return vnow * 1e-3; }
double CkTimer() { return CkWallTimer(); }
void CkPrintf(const char *f, ...) {
  va_list a;
  va_start(a, f);
  vprintf(f, a);
  va_end(a);
}
void CkError(const char *f, ...) {
  va_list a;
  va_start(a, f);
  vfprintf(stderr, f, a);
  va_end(a);
}
void CkExit(int rc) {
  post(src_label(), "R", "CkExit", nullptr, [rc]() {
    exited = true;
    exit_rc = rc;
  });
}
void CkAbort(const char *f, ...) {
  char b[512];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  finish("abort", b, 1);
}
int CkMyPe() { return 0; }
int CkNumPes() { return 1; }
int CkMyNode() { return 0; }
int CkNumNodes() { return 1; }
void CkStartCheckpoint(const char *, const CkCallback &cb, bool, int) {
  CkCallback c = cb;
  post(src_label(), "R", "CkStartCheckpoint", nullptr, [c]() { do_checkpoint(c); });
}
static void try_qd(CkCallback c) {
  if (pending.empty())
    c.send(new CkReductionMsg);
  else
    post("R", "R", "CkStartQD", nullptr, [c]() { try_qd(c); });
}
void CkStartQD(const CkCallback &cb) {
  CkCallback c = cb;
  post(src_label(), "R", "CkStartQD", nullptr, [c]() { try_qd(c); });
}

namespace Ck {
namespace IO {
void open(std::string name, CkCallback opened, Options) {
  post(src_label(), "R", "io-open", nullptr, [name, opened]() {
    IoFile f;
    f.name = name;
    f.fd = ::open(name.c_str(), O_CREAT | O_WRONLY, 0664);
    if (f.fd < 0)
      finish("abort", "cannot open output file " + name, 1);
    int t = io_next++;
    iofiles[t] = f;
    counters["io_open"]++;
    auto *m = new FileReadyMsg;
    m->file.token = t;
    opened.send(m);
  });
}
void startSession(File f, size_t bytes, size_t offset, CkCallback ready, CkCallback complete) {
  if (!iofiles.count(f.token))
    finish("abort", "session on a file that is not open", 1);
  post(src_label(), "R", "io-session", nullptr, [f, bytes, offset, ready, complete]() {
    int t = io_next++;
    IoSession s;
    s.file = f.token;
    s.bytes = bytes;
    s.offset = offset;
    s.complete = complete;
    iosessions[t] = s;
    auto *m = new SessionReadyMsg;
    m->session.file = f.token;
    m->session.bytes = bytes;
    m->session.offset = offset;
    m->session.token = t;
    ready.send(m);
    if (bytes == 0) {
      iosessions[t].done = true;
      complete.send(new CkReductionMsg);
    }
  });
}
void startSession(File f, size_t bytes, size_t offset, CkCallback ready, const char *d, size_t n, size_t o, CkCallback complete) {
  std::string data(d, n);
  (void)o;
  startSession(f, bytes, offset, ready, complete);
}
void write(Session s, const char *data, size_t bytes, size_t offset) {
  auto it = iosessions.find(s.token);
  if (it == iosessions.end())
    finish("abort", "write to a session that does not exist", 1);
  if (offset < s.offset || offset + bytes > s.offset + s.bytes)
    finish("abort", "write outside its session (offset " + std::to_string(offset) + "+" + std::to_string(bytes) + " of " + std::to_string(s.bytes) + ")", 1);
  std::string d(data, bytes);
  post(src_label(), "R", "io-write", nullptr, [s, d, offset]() {
    auto it = iosessions.find(s.token);
    if (it == iosessions.end())
      return;
    if (it->second.done)
      finish("abort", "write to a session that is already complete", 1);
    auto f = iofiles.find(it->second.file);
    if (f == iofiles.end())
      finish("abort", "write to a closed file", 1);
    if (pwrite(f->second.fd, d.data(), d.size(), (off_t)offset) != (ssize_t)d.size())
      finish("simulator", "pwrite failed", 3);
    counters["io_write"]++;
    it->second.written += d.size();
    if (it->second.written >= it->second.bytes) {
      it->second.done = true;
      CkCallback c = it->second.complete;
      cur = nullptr;
      c.send(new CkReductionMsg);
    }
  });
}
void close(File f, CkCallback closed) {
  post(src_label(), "R", "io-close", nullptr, [f, closed]() {
    auto it = iofiles.find(f.token);
    if (it == iofiles.end())
      finish("abort", "close of a file that is not open", 1);
    ::close(it->second.fd);
    iofiles.erase(it);
    counters["io_close"]++;
    closed.send(new CkReductionMsg);
  });
}
} // namespace IO
} // namespace Ck

static void read_plan(const char *fn) {
  std::ifstream f(fn);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "rand") {
      Rand r;
      s >> r.seed >> r.p >> r.max >> r.what;
      rands.push_back(r);
    } else if (k == "dst" || k == "src" || k == "entry" || k == "ev") {
      std::string n;
      int d;
      s >> n >> d;
      (k == "dst" ? dstd : k == "src" ? srcd : k == "entry" ? entd : evd)[n] += d;
    } else if (k == "mig") {
      Mig m;
      s >> m.step >> m.who;
      migs.push_back(m);
    } else if (k == "crash") {
      std::pair<int, int> c;
      s >> c.first >> c.second;
      crashes.push_back(c);
    } else if (k == "redorder")
      s >> redseed;
    else if (k == "cap")
      s >> cap;
    else if (k == "perturb")
      s >> perturb;
  }
}

extern "C" void csim_exit_hook(int, void *) {}
static void at_exit_cb() {
  // The user program called exit() itself.
  if (!exited)
    finish("userexit", "the program called exit()", 1);
}

int main(int argc, char **argv) {
  if (argc < 4)
    return 3;
  // Same addresses in every execution, so that even a program that misuses memory behaves the same each time.
  if (!getenv("CSIM_FIXED") && personality(ADDR_NO_RANDOMIZE) != -1) {
    setenv("CSIM_FIXED", "1", 1);
    execv("/proc/self/exe", argv);
  }
  read_plan(argv[2]);
  resfile = argv[3];
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  mallopt(M_PERTURB, perturb ? perturb : 0x5A);
  static char altstack[1 << 16];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) {
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    sigaction(s, &sa, nullptr);
  }
  user_so = argv[1];
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
  if (!h) {
    fprintf(stderr, "%s\n", dlerror());
    return 3;
  }
  dl_iterate_phdr(phdr_cb, nullptr);
  atexit(at_exit_cb);
  int mt = -1;
  const Entry *me = nullptr;
  for (auto &e : entries)
    if (e.second.kind == csim::K_CTOR && std::string(types.at(e.second.type).name) == "Main") {
      mt = e.second.type;
      me = &e.second;
    }
  if (mt < 0)
    return 3;
  static CkArgMsg am;
  static std::vector<char *> av;
  av.push_back((char *)"./superB");
  for (int i = 4; i < argc; i++)
    av.push_back(argv[i]);
  am.argc = (int)av.size();
  av.push_back(nullptr);
  am.argv = av.data();
  int id = csim::new_singleton(mt);
  Chare *c = arrays[id].e[0];
  Msg *m = me->from_msg(&am);
  post("R", c->label, "constructor", c,
       [c, m]() {
         new_chare_mem(c);
         cur = c;
         types.at(c->type).construct(c->mem, m);
         cur = nullptr;
         c->alive = true;
       },
       true);
  loop();
}
