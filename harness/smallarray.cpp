// il::SmallArray<T, K> driven by scripts.  Header tokens: S <type> <mode> <K>
#include "vf.h"
#include <il/SmallArray.h>
using namespace vf;

template <typename T, int K>
struct Driver {
  typedef il::SmallArray<T, K> A;
  static const int N = 3;
  std::unique_ptr<A> slot[N];
  const T *prev[N];

  static T mk(long v) { return Elem<T>::make(v); }
  std::string obs(int k) {
    Json j;
    if (!slot[k]) { j.b("on", false).raw("v", "[]").b("inl", false).i("cap", 0).i("al", 0).i("adr", 0).b("same", true).b("pch", false); prev[k] = nullptr; return j.end(); }
    A &a = *slot[k];
    const A &c = a;
    std::vector<long> v;
    bool same = true;
    for (il::int_t i = 0; i < c.size(); ++i) v.push_back(Elem<T>::get(c[i]));
    il::ArrayView<T> w = c.view();
    same = same && w.size() == c.size() && w.data() == c.data();
    for (il::int_t i = 0; i < w.size(); ++i) same = same && Elem<T>::get(w[i]) == v[i];
    if (c.size() > 0) same = same && &c.back() == &c[c.size() - 1] && &a.Back() == &a[a.size() - 1] && &w.back() == &c.back();
    same = same && a.Data() == c.data() && a.Edit().Data() == c.data() && a.Edit().size() == c.size();
    bool pch = c.data() != prev[k];
    prev[k] = c.data();
    j.b("on", true).list("v", v).i("cap", c.capacity()).i("al", 0).b("inl", (const char *)c.data() >= (const char *)&a && (const char *)c.data() < (const char *)(&a + 1));
    j.i("adr", static_cast<long>(reinterpret_cast<std::size_t>(c.data()) % 6451200)).b("same", same).b("pch", pch);
    return j.end();
  }
  void run(Script &sc) {
    const std::string op = sc.str();
    int s = static_cast<int>(sc.num()) - 1;
    std::vector<long> ret;
    std::vector<long> pre;
    std::unique_ptr<A> &a = slot[s];
    bool ok = true;
    // arguments are made outside the heap guard, calls inside
    if (op == "new") { Heap h; a.reset(new A{}); }
    else if (op == "new_n") {
      long n = sc.num(); std::vector<long> f = sc.list();
      { Heap h; ok = guarded([&] { a.reset(new A(n)); }); }
      if (ok) fillnew(*a, 0, f, pre);
    } else if (op == "new_val") { long n = sc.num(); T x = mk(sc.num()); Heap h; ok = guarded([&] { a.reset(new A(n, x)); }); }
    else if (op == "new_list") { std::vector<long> v = sc.list(); newlist(a, v); }
    else if (op == "new_copy") { int t = sc.num() - 1; const A &u = *slot[t]; Heap h; a.reset(new A(u)); }
    else if (op == "new_move") { int t = sc.num() - 1; Heap h; a.reset(new A(std::move(*slot[t]))); }
    else if (op == "copy_assign") { int t = sc.num() - 1; const A &u = *slot[t]; Heap h; *a = u; }
    else if (op == "move_assign") { int t = sc.num() - 1; A &u = *slot[t]; Heap h; *a = std::move(u); }
    else if (op == "destroy") { Heap h; a.reset(); }
    else if (op == "get") { long i = sc.num(); long r = 0; ok = guarded([&] { r = Elem<T>::get(static_cast<const A &>(*a)[i]); }); ret.push_back(r); }
    else if (op == "put") { long i = sc.num(); T x = mk(sc.num()); Heap h; ok = guarded([&] { (*a)[i] = x; }); }
    else if (op == "back") { long r = 0; ok = guarded([&] { r = Elem<T>::get(static_cast<const A &>(*a).back()); }); ret.push_back(r); }
    else if (op == "put_back") { T x = mk(sc.num()); Heap h; ok = guarded([&] { a->Back() = x; }); }
    else if (op == "resize") {
      long n = sc.num(); std::vector<long> f = sc.list(); long old = a->size();
      { Heap h; ok = guarded([&] { a->Resize(n); }); }
      if (ok && n > old) fillnew(*a, old, f, pre);
    } else if (op == "reserve") { long n = sc.num(); Heap h; ok = guarded([&] { a->Reserve(n); }); }
    else if (op == "append") { const T x = mk(sc.num()); Heap h; a->Append(x); }
    else if (op == "append_mv") { T x = mk(sc.num()); Heap h; a->Append(std::move(x)); }
    else if (op == "append_emp") { int x = sc.num(); Heap h; emp(*a, x); }
    else if (op == "append_self") { long i = sc.num(); Heap h; if (i % 2) a->Append(static_cast<const A &>(*a)[i]); else a->Append((*a)[i]); }
    else if (op == "view") {
      long b = sc.num(), e = sc.num(); 
      ok = guarded([&] { const A &c = *a; il::ArrayView<T> w = c.view(il::Range{b, e}); for (il::int_t i = 0; i < w.size(); ++i) ret.push_back(Elem<T>::get(w[i])); });
    } else if (op == "edit") {
      long b = sc.num(), e = sc.num(), i = sc.num(); T x = mk(sc.num());
      Heap h; ok = guarded([&] { il::ArrayEdit<T> w = a->Edit(il::Range{b, e}); w[i] = x; });
    } else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
    if (!ok) { ret.clear(); pre.clear(); }
    emit(ok, ret, pre);
  }
  void fillnew(A &a, long from, const std::vector<long> &f, std::vector<long> &pre) {
    for (size_t k = 0; k < f.size() && from + static_cast<long>(k) < a.size(); ++k) {
      if (Elem<T>::cls) pre.push_back(Elem<T>::get(a[from + k]));
      T x = mk(f[k]);
      Heap h;
      a[from + k] = x;
    }
  }
  void newlist(std::unique_ptr<A> &a, const std::vector<long> &v) {
    switch (v.size()) {
      case 0: { Heap h; a.reset(new A{il::value, {}}); break; }
      case 1: { Heap h; a.reset(new A{il::value, {mk(v[0])}}); break; }
      case 2: { Heap h; a.reset(new A{il::value, {mk(v[0]), mk(v[1])}}); break; }
      case 3: { Heap h; a.reset(new A{il::value, {mk(v[0]), mk(v[1]), mk(v[2])}}); break; }
      default: { Heap h; a.reset(new A{il::value, {mk(v[0]), mk(v[1]), mk(v[2]), mk(v[3])}}); break; }
    }
  }
  template <typename U = T> typename std::enable_if<!Elem<U>::cls>::type emp(A &a, int x) { a.Append(x); }
  template <typename U = T> typename std::enable_if<Elem<U>::cls>::type emp(A &a, int x) { a.Append(x - 5, 5); }
  void emit(bool ok, const std::vector<long> &ret, const std::vector<long> &pre) {
    std::vector<std::string> o;
    for (int k = 0; k < N; ++k) o.push_back(obs(k));
    Json j;
    j.str("st", ok ? "ok" : "abort").list("r", ret).list("pre", pre).rawlist("obs", o).i("live", reg().alive.size()).i("faults", reg().faults);
    if (reg().faults) j.str("fault", reg().first);
    j.emit();
  }
  void all(Script &sc) {
    reg().reset();
    g_blocks = 0;
    for (int k = 0; k < N; ++k) prev[k] = nullptr;
    while (sc.next()) {
      if (sc.line == "E") break;
      run(sc);
    }
    { Heap h; for (int k = 0; k < N; ++k) slot[k].reset(); }
    Json j;
    j.i("live", reg().alive.size()).i("faults", reg().faults).i("blocks", g_blocks);
    j.emit();
  }
};

int main() {
  heap_init();
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    sc.str();
    const std::string ty = sc.str();
    sc.str();
    const int k = sc.num();
#define CASES(T) if (k == 1) { Driver<T, 1> d; d.all(sc); } else if (k == 2) { Driver<T, 2> d; d.all(sc); } else { Driver<T, 3> d; d.all(sc); }
    if (ty == "int") { CASES(int) }
    else if (ty == "double") { CASES(double) }
    else if (ty == "tracked") { CASES(Tracked) }
    else return 3;
  }
  return 0;
}
