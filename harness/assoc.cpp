// il::Map, il::Set, il::MapArray driven by scripts.
// Header: S <kind> <key type> <value type> <mode> <U> <hash codes of the keys 1..U>
#include "vf.h"
#include <il/String.h>
#if ONLY == 9
#include <il/Map.h>
#elif ONLY == 10
#include <il/Set.h>
#else
#include <il/MapArray.h>
#endif
using namespace vf;

static std::vector<long> g_code(1, 0);
static long code_of(long id) { return id >= 1 && id < (long)g_code.size() ? g_code[id] : id; }

// Hash functions with chosen hash codes
struct CollF {
  static bool isEmpty(int v) { return v == INT_MIN; }
  static bool isTombstone(int v) { return v == INT_MIN + 1; }
  static void constructEmpty(il::io_t, int *v) { *v = INT_MIN; }
  static void constructTombstone(il::io_t, int *v) { *v = INT_MIN + 1; }
  static std::size_t hash(int v, int p) { return static_cast<std::size_t>(code_of(v)) & ((static_cast<std::size_t>(1) << p) - 1); }
  static bool isEqual(int a, int b) { return a == b; }
};
struct TrackF {
  static int peek(const Tracked &t) { int v; memcpy(&v, &t, sizeof v); return v; }
  static void poke(Tracked *t, int v) { memcpy(static_cast<void *>(t), &v, sizeof v); }
  static bool isEmpty(const Tracked &t) { return peek(t) == INT_MIN; }
  static bool isTombstone(const Tracked &t) { return peek(t) == INT_MIN + 1; }
  static void constructEmpty(il::io_t, Tracked *t) { poke(t, INT_MIN); }
  static void constructTombstone(il::io_t, Tracked *t) { poke(t, INT_MIN + 1); }
  static std::size_t hash(const Tracked &t, int p) { return static_cast<std::size_t>(code_of(t.value())) & ((static_cast<std::size_t>(1) << p) - 1); }
  static bool isEqual(const Tracked &a, const Tracked &b) { return a.value() == b.value(); }
};
// Keys: identifier <-> key
static const int kInt[] = {0, 5, -1, 0, INT_MAX, INT_MIN + 2, 1000000, 42, -99999, 1 << 30, 13, 14, 15};
#define STRS X(1, "") X(2, "a") X(3, "aB") X(4, "b!") X(5, "a key which does not fit in the small buffer") \
  X(6, "a key which does not fit in the small buffes") X(7, "twenty two characters!") X(8, "twenty-three characters") X(9, "\xc3\xa9t\xc3\xa9") \
  X(10, "x") X(11, "y") X(12, "z")
static const char *kStr[] = {"?",
#define X(num_, lit_) lit_,
STRS
#undef X
};
template <typename K> struct Key {};
struct IntKey { typedef int T; typedef il::HashFunction<int> F; static T make(long k) { return k <= 12 ? kInt[k] : (int)(3000000 + 13 * k); } static long id(const T &x) { if (x > 3000000 && x < 4000000) return (x - 3000000) / 13; for (int k = 1; k <= 12; ++k) if (kInt[k] == x) return k; return -99; } };
struct CollKey { typedef int T; typedef CollF F; static T make(long k) { return (int)k; } static long id(const T &x) { return x; } };
struct TrackKey { typedef Tracked T; typedef TrackF F; static T make(long k) { return Tracked((int)k); } static long id(const T &x) { return x.value(); } };
struct StrKey { typedef il::String T; typedef il::HashFunction<il::String> F;
  static std::string more(long k) { return (k % 3 ? "" : "a long prefix in front of the number: ") + std::to_string(k) + (k % 5 ? "" : std::string(60 + k % 7, 'u')); }
  static T make(long k) { if (k > 12) { const std::string t = more(k); return il::String(il::StringType::Byte, t.data(), (il::int_t)t.size()); } return il::String(il::StringType::Byte, kStr[k], (il::int_t)strlen(kStr[k])); }
  static long id(const T &x) { for (int k = 1; k <= 12; ++k) if ((size_t)x.size() == strlen(kStr[k]) && memcmp(x.asCString(), kStr[k], x.size()) == 0) return k; { const char *p = x.asCString(); if (p[0] == 'a') p += strlen("a long prefix in front of the number: "); const long k = strtol(p, nullptr, 10); if (k > 12 && more(k) == std::string(x.asCString(), x.size())) return k; } return -99; } };

#if ONLY == 10
template <typename KK, typename V> struct Box {
  typedef typename KK::T K;
  typedef il::Set<K, typename KK::F> C;
  static const K &key(const C &c, il::spot_t i) { return c.element(i); }
  static long val(const C &, il::spot_t) { return 0; }
  static bool extra(C &c, il::spot_t i, const K &k) { return c.contains(k); }
  static void shape(Json &j, const C &) { j.i("bk", 0).i("tomb", 0); }
};
#else
#if ONLY == 9
#define CONT il::Map
#else
#define CONT il::MapArray
#endif
template <typename KK, typename V> struct Box {
  typedef typename KK::T K;
  typedef CONT<K, V, typename KK::F> C;
  static const K &key(const C &c, il::spot_t i) { return c.key(i); }
  static long val(const C &c, il::spot_t i) { return Elem<V>::get(c.value(i)); }
  static bool extra(C &c, il::spot_t i, const K &) { return &c.Value(i) == &c.value(i); }
#if ONLY == 9
  static void shape(Json &j, const C &c) { j.i("bk", c.nbBuckets()).i("tomb", c.nbTombstones()); }
#else
  static void shape(Json &j, const C &c) { j.i("bk", c.capacity()).i("tomb", 0); }
#endif
};
#endif

template <typename KK, typename V>
struct Driver {
  typedef Box<KK, V> B;
  typedef typename B::C C;
  typedef typename KK::T K;
  static const int N = 3;
  std::unique_ptr<C> slot[N];
  long U;

  std::string obs(int s) {
    Json j;
    if (!slot[s]) { j.b("on", false).i("n", 0).raw("look", "[]").raw("it", "[]").i("bk", 0).i("tomb", 0).b("same", true); return j.end(); }
    C &a = *slot[s];
    const C &c = a;
    bool same = true;
    std::vector<long> look, it;
    for (long k = 1; k <= U; ++k) {
      const K key = KK::make(k);
      il::spot_t i = c.search(key);
      if (c.found(i)) {
        look.push_back(B::val(c, i));
        same = same && KK::id(B::key(c, i)) == k && B::extra(a, i, key) && i.isValid();
      } else { look.push_back(-1); same = same && !i.isValid(); }
    }
    long guard = 0;
    for (il::spot_t i = c.spotBegin(); i != c.spotEnd() && guard < 3000; i = c.next(i), ++guard) { it.push_back(KK::id(B::key(c, i))); it.push_back(B::val(c, i)); }
#if ONLY == 9
    same = same && c.isEmpty() == (c.nbElements() == 0);
#elif ONLY == 11
    same = same && c.size() == c.nbElements();
#endif
    j.b("on", true).i("n", c.nbElements()).list("look", look).list("it", it).b("same", same);
    B::shape(j, c);
    return j.end();
  }
  void set(C &a, const std::string &op, long k, long x, int w, std::vector<long> &ret) {
    const bool io = op == "set_io";
#if ONLY == 10
    K key = KK::make(k);
    Heap h;
    if (!io) { a.Add(key); return; }
    il::spot_t i = a.search(key);
    if (a.found(i)) { NoHeap g; ret = {0, KK::id(a.element(i)), 0}; return; }
    a.Add(key, il::io, i);
    { NoHeap g; ret = {1, KK::id(a.element(i)), 0}; }
#else
    Heap h;
    K key = KK::make(k);
    V v = Elem<V>::make(x);
    const K &ck = key;
    const V &cv = v;
    if (!io) {
      if (w == 0) a.Set(ck, cv); else if (w == 1) a.Set(ck, std::move(v)); else if (w == 2) a.Set(std::move(key), cv); else a.Set(std::move(key), std::move(v));
      return;
    }
    il::spot_t i = a.search(key);
    const long isnew = !a.found(i);
    if (isnew) {
      if (w == 0) a.Set(ck, cv, il::io, i); else if (w == 1) a.Set(ck, std::move(v), il::io, i); else if (w == 2) a.Set(std::move(key), cv, il::io, i); else a.Set(std::move(key), std::move(v), il::io, i);
    }
    { NoHeap g; ret = {isnew, KK::id(a.key(i)), Elem<V>::get(a.value(i))}; }
#endif
  }
#if ONLY == 9
  template <typename Q = KK> typename std::enable_if<!std::is_same<Q, StrKey>::value>::type cstr(C &, const std::string &, long, long, int, std::vector<long> &) { exit(3); }
  template <typename Q = KK> typename std::enable_if<std::is_same<Q, StrKey>::value>::type cstr(C &a, const std::string &op, long k, long x, int w, std::vector<long> &ret) {
    const C &c = a;
    V v = Elem<V>::make(x);
    const V &cv = v;
    Heap h;
    switch (k) {
#define X(num_, lit) case num_: \
      if (op == "setc") { if (w == 0) a.SetCString(lit, cv); else a.SetCString(lit, std::move(v)); } \
      else if (op == "setc_io" || op == "searchc") { \
        il::spot_t i = w == 0 ? c.searchCString(lit) : c.searchCString(kStr[k], (il::int_t)strlen(kStr[k])); \
        bool isnew = !c.found(i); \
        if (op == "searchc") { NoHeap g; if (isnew) ret = {0}; else ret = {1, StrKey::id(c.key(i)), Elem<V>::get(c.value(i))}; break; } \
        if (isnew) { if (w == 0) a.SetCString(lit, cv, il::io, i); else a.SetCString(kStr[k], (il::int_t)strlen(kStr[k]), cv, il::io, i); } \
        NoHeap g; ret = {isnew, StrKey::id(c.key(i)), Elem<V>::get(c.value(i))}; \
      } else if (op == "valc") { long r = 0; if (!Elem<V>::cls || c.found(c.searchCString(lit))) r = Elem<V>::get(c.valueForCString(lit)); NoHeap g; ret.push_back(r); } \
      else if (op == "valdc") { long r = Elem<V>::get(c.valueForCString(lit, cv)); NoHeap g; ret.push_back(r); } \
      else exit(3); break;
      STRS
#undef X
    }
  }
#endif
  void run(Script &sc) {
    const std::string op = sc.str();
    int s = static_cast<int>(sc.num()) - 1;
    std::vector<long> ret;
    std::unique_ptr<C> &a = slot[s];
    bool ok = true;
    if (op == "new") { Heap h; a.reset(new C{}); }
    else if (op == "new_copy") { int t = sc.num() - 1; const C &u = *slot[t]; Heap h; a.reset(new C(u)); }
    else if (op == "new_move") { int t = sc.num() - 1; Heap h; a.reset(new C(std::move(*slot[t]))); }
    else if (op == "copy_assign") { int t = sc.num() - 1; const C &u = *slot[t]; Heap h; *a = u; }
    else if (op == "move_assign") { int t = sc.num() - 1; C &u = *slot[t]; Heap h; *a = std::move(u); }
    else if (op == "destroy") { Heap h; a.reset(); }
    else if (op == "set" || op == "set_io") { long k = sc.num(), x = sc.num(); int w = sc.num(); ok = guarded([&] { set(*a, op, k, x, w, ret); }); }
    else if (op == "search") {
      const K key = KK::make(sc.num()); const C &c = *a;
      Heap h; il::spot_t i = c.search(key); NoHeap g;
      if (c.found(i)) ret = {1, KK::id(B::key(c, i)), B::val(c, i)}; else ret = {0};
    }
#if ONLY != 11
    else if (op == "clear") { Heap h; a->Clear(); }
#endif
#if ONLY != 10
    else if (op == "new_n") { long n = sc.num(); Heap h; ok = guarded([&] { a.reset(new C(n)); }); }
    else if (op == "new_list") {
      typedef il::KeyValue<K, V> P;
      std::vector<long> ks = sc.list(), vs = sc.list();
#define KV(n) P(KK::make(ks[n]), Elem<V>::make(vs[n]))
      Heap h;
      ok = guarded([&] {
        if (ks.empty()) a.reset(new C{il::value, {}});
        else if (ks.size() == 1) a.reset(new C{il::value, {KV(0)}});
        else if (ks.size() == 2) a.reset(new C{il::value, {KV(0), KV(1)}});
        else if (ks.size() == 3) a.reset(new C{il::value, {KV(0), KV(1), KV(2)}});
        else a.reset(new C{il::value, {KV(0), KV(1), KV(2), KV(3), KV(4)}});
      });
    }
    else if (op == "set_self") {
      long k = sc.num(), k2 = sc.num();
      Heap h;
      K key = KK::make(k); const K key2 = KK::make(k2); const C &c = *a;
      const K &ck = key;
      const V &v = c.value(c.search(key2));
      il::spot_t i = c.search(ck);
      const int w = (k + k2) % 4;
      if (w == 0) a->Set(ck, v);
      else if (w == 1) a->Set(std::move(key), v);
      else if (c.found(i)) a->Set(ck, v);
      else if (w == 2) a->Set(ck, v, il::io, i);
      else a->Set(std::move(key), v, il::io, i);
    }
    else if (op == "put") { const K key = KK::make(sc.num()); V v = Elem<V>::make(sc.num()); Heap h; ok = guarded([&] { a->Value(a->search(key)) = v; }); }
#endif
#if ONLY == 9
    else if (op == "val") {
      const K key = KK::make(sc.num()); const C &c = *a;
      if (Elem<V>::cls && !c.found(c.search(key))) ret.push_back(0);   // the default element would outlive the scenario
      else { long r; { Heap h; r = Elem<V>::get(c.valueForKey(key)); } ret.push_back(r); }
    }
    else if (op == "vald") { const K key = KK::make(sc.num()); const V d = Elem<V>::make(sc.num()); const C &c = *a; long r; { Heap h; r = Elem<V>::get(c.valueForKey(key, d)); } ret.push_back(r); }
    else if (op == "erase") { const K key = KK::make(sc.num()); Heap h; ok = guarded([&] { a->erase(a->search(key)); }); }
    else if (op == "reserve") { long n = sc.num(); Heap h; ok = guarded([&] { a->Reserve(n); }); }
    else if (op == "rehash") { Heap h; a->Rehash(); }
    else if (op == "setc" || op == "setc_io" || op == "searchc" || op == "valc" || op == "valdc") { long k = sc.num(), x = sc.num(); int w = sc.num(); cstr(*a, op, k, x, w, ret); }
#endif
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
    if (!ok) ret.clear();
    emit(ok, ret);
  }
  void emit(bool ok, const std::vector<long> &ret) {
    std::vector<std::string> o;
    for (int k = 0; k < N; ++k) o.push_back(obs(k));
    Json j;
    j.str("st", ok ? "ok" : "abort").list("r", ret).rawlist("obs", o).i("live", reg().alive.size()).i("faults", reg().faults);
    if (reg().faults) j.str("fault", reg().first);
    j.emit();
  }
  void all(Script &sc, long u) {
    U = u;
    reg().reset();
    g_blocks = 0;
    while (sc.next()) {
      if (sc.line == "E") break;
      run(sc);
    }
    { Heap h; for (int k = 0; k < N; ++k) slot[k].reset(); }
    Json j;
    j.i("live", reg().alive.size()).i("faults", reg().faults).i("blocks", g_blocks);
    j.emit();
  }
};
template <typename KK> int vals(Script &sc, const std::string &v, long u) {
#if ONLY != 10
  if (v == "tracked") { Driver<KK, Tracked> d; d.all(sc, u); return 0; }
#endif
  Driver<KK, int> d; d.all(sc, u); return 0;
}
int main() {
  heap_init();
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    sc.str(); sc.str();
    const std::string k = sc.str(), v = sc.str();
    sc.str();
    const long u = sc.num();
    g_code.assign(1, 0);
    while (sc.more()) g_code.push_back(sc.num());
    if (k == "int") vals<IntKey>(sc, v, u);
    else if (k == "coll") vals<CollKey>(sc, v, u);
    else if (k == "tracked") vals<TrackKey>(sc, v, u);
    else if (k == "str") vals<StrKey>(sc, v, u);
    else return 3;
  }
  return 0;
}
