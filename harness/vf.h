// Shared by all harnesses: script reader, JSON writer, tracked element type,
// heap block accounting.  Harnesses use the public API of InsideLoop only.
#ifndef VF_H
#define VF_H
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <climits>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <il/core.h>

namespace vf {

// ---------------------------------------------------------------- heap blocks
// Counts blocks allocated with malloc and not yet freed.  Under ASan through its
// hooks; otherwise not counted (returns 0).
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t),
    void (*free_hook)(const volatile void *));
static volatile long g_blocks = 0;
static volatile bool g_count = false;
// With VF_LIFE every allocation, release and life event of a tracked element is recorded
// (raw addresses here, resolved to block and offset when a line is printed).
#ifdef VF_LIFE
struct LifeEv { char k; uintptr_t p; size_t n; };
static const long life_cap = 1L << 20;
static LifeEv g_life[life_cap];
static volatile long g_nlife = 0;
inline void life(char k, const volatile void *p, size_t n) {
  if (g_nlife >= life_cap) _exit(4);
  g_life[g_nlife].k = k; g_life[g_nlife].p = reinterpret_cast<uintptr_t>(p); g_life[g_nlife].n = n;
  g_nlife = g_nlife + 1;
}
#else
inline void life(char, const volatile void *, size_t) {}
#endif
static void on_malloc(const volatile void *p, size_t n) { if (g_count && p) { g_blocks = g_blocks + 1; life('a', p, n); } }
static void on_free(const volatile void *p) { if (g_count && p) { g_blocks = g_blocks - 1; life('f', p, 0); } }
inline void heap_init() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
#else
static volatile long g_blocks = 0;
static volatile bool g_count = false;
inline void heap_init() {}
inline void life(char, const volatile void *, size_t) {}
#endif
#define VF_BARRIER asm volatile("" ::: "memory")
// Counting is on only while code under test runs (Heap guard).
struct Heap {
  bool old;
  Heap() : old(g_count) { g_count = true; VF_BARRIER; }
  ~Heap() { VF_BARRIER; g_count = old; VF_BARRIER; }
};
struct NoHeap {
  bool old;
  NoHeap() : old(g_count) { VF_BARRIER; g_count = false; VF_BARRIER; }
  ~NoHeap() { VF_BARRIER; g_count = old; VF_BARRIER; }
};

#ifdef VF_LIFE
// Where things are: heap blocks and, outside of them, objects; both under small numbers.
struct LifeWorld {
  std::map<uintptr_t, std::pair<long, size_t>> blocks;
  std::map<uintptr_t, long> objs;
  std::set<long> bid, oid;
  static long pick(std::set<long> &u) { long k = 1; while (u.count(k)) ++k; u.insert(k); return k; }
  void reset() { blocks.clear(); objs.clear(); bid.clear(); oid.clear(); g_nlife = 0; }
  // block and offset of an address (block 0: not in a heap block of the code under test)
  std::pair<long, long> at(uintptr_t p, bool fresh) {
    auto it = blocks.upper_bound(p);
    if (it != blocks.begin()) {
      --it;
      if (p < it->first + (it->second.second ? it->second.second : 1)) return {it->second.first, static_cast<long>(p - it->first)};
    }
    auto o = objs.find(p);
    if (o != objs.end()) return {0, o->second};
    long k = fresh ? pick(oid) : 0;
    if (fresh) objs[p] = k;
    return {0, k};
  }
  std::string flush() {
    std::string s = "[";
    for (long i = 0; i < g_nlife; ++i) {
      LifeEv e = g_life[i];
      long b = 0, o = 0;
      if (e.k == 'a') {
        auto it = blocks.find(e.p);
        if (it == blocks.end()) { b = pick(bid); blocks[e.p] = {b, e.n}; } else b = it->second.first;
      } else if (e.k == 'f') {
        auto it = blocks.find(e.p);
        if (it != blocks.end()) { b = it->second.first; bid.erase(b); blocks.erase(it); }
      } else {
        auto x = at(e.p, e.k == 'b');
        b = x.first; o = x.second;
        if (e.k == 'd' && b == 0 && o) { objs.erase(e.p); oid.erase(o); }
      }
      if (i) s += ',';
      s += std::string("[\"") + e.k + "\"," + std::to_string(b) + ',' + std::to_string(o) + ',' + std::to_string(e.n) + ']';
    }
    g_nlife = 0;
    return s + "]";
  }
};
inline LifeWorld &world() { static LifeWorld *w = new LifeWorld; return *w; }
#endif

// ------------------------------------------------------------------- tokens
struct Script {
  std::string line;
  std::vector<std::string> tok;
  size_t pos;
  bool next() {
    if (!std::getline(std::cin, line)) return false;
    tok.clear();
    pos = 0;
    std::string t;
    std::istringstream is(line);
    while (is >> t) tok.push_back(t);
    return true;
  }
  bool more() const { return pos < tok.size(); }
  const std::string &str() {
    if (pos >= tok.size()) { fprintf(stderr, "script: missing token in '%s'\n", line.c_str()); exit(3); }
    return tok[pos++];
  }
  long num() { return strtol(str().c_str(), nullptr, 10); }
  std::vector<long> list() {
    long n = num();
    std::vector<long> v;
    for (long i = 0; i < n; ++i) v.push_back(num());
    return v;
  }
};

// --------------------------------------------------------------------- JSON
struct Json {
  std::string s;
  bool first;
  Json() : s("{"), first(true) {}
  void key(const char *k) {
    if (!first) s += ',';
    first = false;
    s += '"'; s += k; s += "\":";
  }
  Json &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
  Json &i(const char *k, long v) { key(k); s += std::to_string(v); return *this; }
  Json &b(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  static std::string q(const std::string &v) {
    std::string r = "\"";
    for (size_t k = 0; k < v.size(); ++k) {
      unsigned char c = static_cast<unsigned char>(v[k]);
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  Json &str(const char *k, const std::string &v) { key(k); s += q(v); return *this; }
  template <typename V> Json &list(const char *k, const V &v) {
    key(k); s += '[';
    for (size_t n = 0; n < v.size(); ++n) { if (n) s += ','; s += std::to_string(v[n]); }
    s += ']';
    return *this;
  }
  Json &rawlist(const char *k, const std::vector<std::string> &v) {
    key(k); s += '[';
    for (size_t n = 0; n < v.size(); ++n) { if (n) s += ','; s += v[n]; }
    s += ']';
    return *this;
  }
  std::string end() const { return s + "}"; }
  void emit() const {
    std::string o = s;
#ifdef VF_LIFE
    NoHeap g;
    o += std::string(first ? "" : ",") + "\"life\":" + world().flush();
#endif
    o += "}\n"; fwrite(o.data(), 1, o.size(), stdout); fflush(stdout);
  }
};

// ------------------------------------------------------------- tracked element
// A class type that knows whether it is alive.  `faults` counts violations of the
// object lifetime protocol; `live` the number of live elements.
struct Registry {
  std::unordered_set<const void *> alive;
  long faults;
  std::string first;
  Registry() : faults(0) {}
  void fault(const char *m) { if (!faults++) first = m; }
  void reset() { alive.clear(); faults = 0; first.clear();
#ifdef VF_LIFE
    world().reset();
#endif
  }
};
inline Registry &reg() { static Registry *r = new Registry; return *r; }

class Tracked {
  int v_;
  char *own_;   // owns memory, so that bitwise copies, leaks and double frees show
 public:
  static const int dflt = 0;
  void born(int v) {
    NoHeap g;
    if (!reg().alive.insert(this).second) reg().fault("construct over live element");
    life('b', this, sizeof(Tracked));
    v_ = v;
    own_ = static_cast<char *>(malloc(2));
    own_[0] = static_cast<char>(v);
  }
  static void need(const Tracked &o, const char *what) {
    if (g_count) life('r', &o, 0);
    NoHeap g;
    if (!reg().alive.count(&o)) reg().fault(what);
  }
  Tracked() { born(dflt); }
  explicit Tracked(int v) { born(v); }
  Tracked(int a, int b) { born(a + b); }
  Tracked(const Tracked &o) { need(o, "copy from dead element"); born(o.v_); }
  Tracked(Tracked &&o) { need(o, "move from dead element"); born(o.v_); if (this != &o) o.v_ = -7; }
  Tracked &operator=(const Tracked &o) {
    need(*this, "assign to dead element"); need(o, "assign from dead element");
    v_ = o.v_; return *this;
  }
  Tracked &operator=(Tracked &&o) {
    need(*this, "assign to dead element"); need(o, "assign from dead element");
    v_ = o.v_; if (this != &o) o.v_ = -7; return *this;
  }
  ~Tracked() {
    NoHeap g;
    life('d', this, 0);
    if (!reg().alive.erase(this)) reg().fault("destroy dead element");
    else free(own_);
    v_ = -9;
  }
  int value() const { need(*this, "read dead element"); return v_; }
  void set(int v) { need(*this, "write dead element"); v_ = v; }
  bool operator==(const Tracked &o) const { return value() == o.value(); }
  bool operator!=(const Tracked &o) const { return value() != o.value(); }
  bool operator<(const Tracked &o) const { return value() < o.value(); }
};

// conversions int <-> element
template <typename T> struct Elem {
  static T make(long v) { return static_cast<T>(v); }
  static long get(const T &x) { return static_cast<long>(x); }
  static const bool cls = false;
};
template <> struct Elem<Tracked> {
  static Tracked make(long v) { return Tracked(static_cast<int>(v)); }
  static long get(const Tracked &x) { return x.value(); }
  static const bool cls = true;
};

// Runs f; a contract abort in a checked build becomes "abort".
template <typename F> bool guarded(F f) {
  try { f(); return true; } catch (const il::AbortException &) { return false; }
}

// Whether f stops the program (run in a child process): for contracts whose breach
// calls std::abort in every checked build.
template <typename F> bool dies(F f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    if (!freopen("/dev/null", "w", stderr)) _exit(0);
    try { f(); } catch (const il::AbortException &) { _exit(9); }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) || (WIFEXITED(st) && WEXITSTATUS(st) == 9);
}

}  // namespace vf
#endif
