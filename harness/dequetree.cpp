// il::Deque (-DONLY=12) and il::Tree (-DONLY=13) driven by scripts.
// Header: S <deque|tree> <type> <mode> [<children per node>]
#include "vf.h"
#if ONLY == 12
#include <il/Deque.h>
#else
#include <il/Tree.h>
#endif
using namespace vf;

#if ONLY == 12
template <typename T, int NC>
struct Cont {
  typedef il::Deque<T> C;
  static std::string none() { return "{\"on\":false,\"n\":0,\"cap\":0,\"v\":[],\"rv\":[]}"; }
  static std::string obs(C &a) {
    Json j; const C &c = a; std::vector<long> v, rv;
    { C d(c); while (d.size() > 0 && v.size() < 2000) { v.push_back(Elem<T>::get(d.front())); d.PopFront(); } }
    { C d(c); while (d.size() > 0 && rv.size() < 2000) { rv.push_back(Elem<T>::get(d.back())); d.PopBack(); } }
    if (c.size() > 0 && (&a.Front() != &c.front() || &a.Back() != &c.back())) v.push_back(-99);
    return j.b("on", true).i("n", c.size()).i("cap", c.capacity()).list("v", v).list("rv", rv).end();
  }
  static bool op(const std::string &op, Script &sc, std::unique_ptr<C> &a, std::vector<long> &ret, bool &lost) {
    if (op == "new") { Heap h; a.reset(new C{}); return true; }
    if (op == "new_n") { long n = sc.num(); Heap h; return guarded([&] { a.reset(new C(n)); }); }
    if (op == "reserve") { long n = sc.num(); Heap h; return guarded([&] { a->Reserve(n); }); }
    if (op == "push_front" || op == "push_back") {
      long x = sc.num(), w = sc.num(); const T v = Elem<T>::make(x); const bool f = op == "push_front";
      Heap h;
      return guarded([&] { if (w == 0) { if (f) a->PushFront(v); else a->PushBack(v); } else emp(*a, f, x); });
    }
    if (op == "push_front_self") { Heap h; return guarded([&] { a->PushFront(static_cast<const C &>(*a).front()); }); }
    if (op == "push_back_self") { Heap h; return guarded([&] { a->PushBack(static_cast<const C &>(*a).front()); }); }
    if (op == "full") { const T v = Elem<T>::make(3); ret.push_back(dies([&] { a->PushFront(v); })); ret.push_back(dies([&] { a->PushBack(v); }));
      ret.push_back(dies([&] { emp(*a, true, 3); })); ret.push_back(dies([&] { emp(*a, false, 3); })); return true; }
    if (op == "pop_front") { Heap h; return guarded([&] { a->PopFront(); }); }
    if (op == "pop_back") { Heap h; return guarded([&] { a->PopBack(); }); }
    if (op == "front") { const C &c = *a; return guarded([&] { ret.push_back(Elem<T>::get(c.front())); }); }
    if (op == "back") { const C &c = *a; return guarded([&] { ret.push_back(Elem<T>::get(c.back())); }); }
    if (op == "put_front") { const T v = Elem<T>::make(sc.num()); Heap h; return guarded([&] { a->Front() = v; }); }
    if (op == "put_back") { const T v = Elem<T>::make(sc.num()); Heap h; return guarded([&] { a->Back() = v; }); }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
  }
  template <typename U = T> static typename std::enable_if<!Elem<U>::cls>::type emp(C &a, bool f, long x) { if (f) a.PushFront(il::emplace, x); else a.PushBack(il::emplace, x); }
  template <typename U = T> static typename std::enable_if<Elem<U>::cls>::type emp(C &a, bool f, long x) { if (f) a.PushFront(il::emplace, int(x - 5), 5); else a.PushBack(il::emplace, int(x - 5), 5); }
  static const bool losing = false;
};
#else
template <typename T, int NC>
struct Cont {
  typedef il::Tree<T, NC> C;
  static std::string none() { return "{\"on\":false,\"lost\":false,\"depth\":0,\"same\":true,\"nodes\":[]}"; }
  static void walk(const C &c, il::spot_t s, std::vector<long> &p, std::vector<std::string> &o, bool &same) {
    if (o.size() > 300) { same = false; return; }
    Json j;
    o.push_back(j.list("p", p).i("v", Elem<T>::get(c.value(s))).b("e", c.isEmpty(s)).end());
    const il::SmallArray<il::int_t, NC> k = c.children(s);
    same = same && c.hasChild(s) == (k.size() > 0);
    std::vector<bool> has(NC, false);
    for (il::int_t i = 0; i < k.size(); ++i) {
      if (k[i] < 0 || k[i] >= NC || has[k[i]]) { same = false; return; }
      has[k[i]] = true;
      il::spot_t t = c.child(s, k[i]);
      same = same && c.parent(t).index == s.index;
      p.push_back(k[i]);
      walk(c, t, p, o, same);
      p.pop_back();
    }
    for (int i = 0; i < NC; ++i) same = same && c.hasChild(s, i) == has[i];
  }
  static std::string obs(C &a) {
    Json j; const C &c = a; bool same = true; std::vector<long> p; std::vector<std::string> o;
    walk(c, c.root(), p, o, same);
    return j.b("on", true).b("lost", false).i("depth", c.depth()).b("same", same).rawlist("nodes", o).end();
  }
  static il::spot_t at(const C &c, const std::vector<long> &p) { il::spot_t s = c.root(); for (long i : p) s = c.child(s, i); return s; }
  static bool op(const std::string &op, Script &sc, std::unique_ptr<C> &a, std::vector<long> &ret, bool &lost) {
    if (op == "new") { Heap h; a.reset(new C{}); return true; }
    if (op == "new_depth") { long d = sc.num(); Heap h; a.reset(new C(d)); return true; }
    std::vector<long> p = sc.list();
    const C &c = *a;
    const il::spot_t s = at(c, p);
    if (op == "add") { long i = sc.num(); Heap h; return guarded([&] { a->AddChild(s, i); }); }
    if (op == "set") { const T v = Elem<T>::make(sc.num()); Heap h; return guarded([&] { a->Set(s, v); }); }
    if (op == "parent") { long r = 0; bool ok = guarded([&] { r = Elem<T>::get(c.value(c.parent(s))); }); ret.push_back(r); return ok; }
    if (op == "child") { long i = sc.num(); long r = 0; bool ok = guarded([&] { r = Elem<T>::get(c.value(c.child(s, i))); }); ret.push_back(r); return ok; }
    if (op == "has") { long i = sc.num(); long r = 0; bool ok = guarded([&] { r = c.hasChild(s, i); }); ret.push_back(r); return ok; }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
  }
  static const bool losing = true;
};
#endif

template <typename T, int NC = 2>
struct Driver {
  typedef Cont<T, NC> K;
  typedef typename K::C C;
  static const int N = 3;
  std::unique_ptr<C> slot[N];
  bool lost[N];
  void all(Script &sc) {
    reg().reset();
    g_blocks = 0;
    for (int k = 0; k < N; ++k) lost[k] = false;
    while (sc.next()) {
      if (sc.line == "E") break;
      const std::string op = sc.str();
      int s = static_cast<int>(sc.num()) - 1;
      std::vector<long> ret;
      std::unique_ptr<C> &a = slot[s];
      bool ok = true;
      if (op == "new_copy") { int t = sc.num() - 1; const C &u = *slot[t]; Heap h; a.reset(new C(u)); lost[s] = false; }
      else if (op == "new_move") { int t = sc.num() - 1; { Heap h; a.reset(new C(std::move(*slot[t]))); } lost[s] = false; lost[t] = K::losing; }
      else if (op == "copy_assign") { int t = sc.num() - 1; const C &u = *slot[t]; Heap h; *a = u; lost[s] = lost[t]; }
      else if (op == "move_assign") { int t = sc.num() - 1; C &u = *slot[t]; { Heap h; *a = std::move(u); } if (t != s) { lost[t] = K::losing; lost[s] = false; } }
      else if (op == "destroy") { Heap h; a.reset(); lost[s] = false; }
      else ok = K::op(op, sc, a, ret, lost[s]);
      if (!ok) ret.clear();
      std::vector<std::string> o;
      const long live = reg().alive.size();
      for (int k = 0; k < N; ++k) {
        if (!slot[k]) o.push_back(K::none());
        else if (lost[k]) o.push_back("{\"on\":true,\"lost\":true,\"depth\":0,\"same\":true,\"nodes\":[]}");
        else o.push_back(K::obs(*slot[k]));
      }
      Json j;
      j.str("st", ok ? "ok" : "abort").list("r", ret).rawlist("obs", o).i("live", live).i("faults", reg().faults);
      if (reg().faults) j.str("fault", reg().first);
      j.emit();
    }
    { Heap h; for (int k = 0; k < N; ++k) slot[k].reset(); }
    Json j;
    j.i("live", reg().alive.size()).i("faults", reg().faults).i("blocks", g_blocks);
    j.emit();
  }
};
template <typename T> void sel(Script &sc, int nc) {
#if ONLY == 12
  Driver<T> d; d.all(sc);
#else
  if (nc == 2) { Driver<T, 2> d; d.all(sc); }
  else if (nc == 3) { Driver<T, 3> d; d.all(sc); }
  else if (nc == 4) { Driver<T, 4> d; d.all(sc); }
  else if (nc == 7) { Driver<T, 7> d; d.all(sc); }
  else if (nc == 15) { Driver<T, 15> d; d.all(sc); }
  else if (nc == 29) { Driver<T, 29> d; d.all(sc); }
  else { Driver<T, 9> d; d.all(sc); }
#endif
}
int main() {
  heap_init();
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    sc.str(); sc.str();
    const std::string ty = sc.str();
    sc.str();
    const int nc = sc.more() ? sc.num() : 0;
    if (ty == "int") sel<int>(sc, nc);
    else if (ty == "double") sel<double>(sc, nc);
    else if (ty == "tracked") sel<Tracked>(sc, nc);
    else return 3;
  }
  return 0;
}
