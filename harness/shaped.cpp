// StaticArray*, LowerArray2D, UpperArray2D, TriDiagonal, BandArray2C driven by
// scripts.  Header: S <kind> <type> <mode> <container>
#include "vf.h"
#include <il/BandArray2C.h>
#include <il/LowerArray2D.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/TriDiagonal.h>
#include <il/UpperArray2D.h>
using namespace vf;
typedef std::vector<long> V;
#define E_(k) Elem<T>::make(f[k])

// C: container traits.  at(a, x): element; dim(a, d); shape of an object; lists.
template <class T, int N> struct S1 {
  typedef il::StaticArray<T, N> A; typedef T Type; static const bool empties = false; static const int rank = 1;
  static V full(const A &) { return V{N}; }
  static A *mk(const V &) { return new A{}; }
  static A *mkv(const V &, const T &x) { return new A{x}; }
  static A *mkl(const V &, const V &f) { return lst(f, std::integral_constant<int, N>()); }
  static A *lst(const V &, std::integral_constant<int, 0>) { return new A{il::value, {}}; }
  static A *lst(const V &f, std::integral_constant<int, 1>) { return new A{il::value, {E_(0)}}; }
  static A *lst(const V &f, std::integral_constant<int, 3>) { return new A{il::value, {E_(0), E_(1), E_(2)}}; }
  static A *lst(const V &f, std::integral_constant<int, 4>) { return new A{il::value, {E_(0), E_(1), E_(2), E_(3)}}; }
  template <class B> static auto at(B &a, const V &x) -> decltype(a[0]) { return a[x[0]]; }
  static long dim(const A &a, long) { return a.size(); }
  template <int M> static bool last(A &a, std::integral_constant<int, M>) { const A &c = a; return &a.Back() == &a[M - 1] && &c.back() == &c[M - 1]; }
  static bool last(A &, std::integral_constant<int, 0>) { return true; }
  static bool same(A &a, const V &) {
    const A &c = a;
    bool ok = last(a, std::integral_constant<int, N>()) && a.Data() == c.data() && c.view().data() == c.data() && c.view().size() == N && a.Edit().Data() == c.data() && a.Edit().size() == N;
    for (int i = 0; i < N; ++i) ok = ok && &a[i] == c.data() + i && &c[i] == c.data() + i;
    return ok;
  }
  static V view(const A &a, long b, long e) { V r; il::ArrayView<T> w = a.view(il::Range{b, e}); for (il::int_t i = 0; i < w.size(); ++i) r.push_back(Elem<T>::get(w[i])); return r; }
  static void edit(A &a, long b, long e, long i, const T &x) { il::ArrayEdit<T> w = a.Edit(il::Range{b, e}); w[i] = x; }
};
template <class T> struct NoView {
  template <class A> static V view(const A &, long, long) { exit(3); }
  template <class A> static void edit(A &, long, long, long, const T &) { exit(3); }
};
template <class T, int N, int M> struct S2D : NoView<T> {
  typedef il::StaticArray2D<T, N, M> A; typedef T Type; static const bool empties = false; static const int rank = 2;
  static V full(const A &) { return V{N, M}; }
  static A *mk(const V &) { return new A{}; }
  static A *mkv(const V &, const T &x) { return new A{x}; }
  static A *mkl(const V &, const V &f) { return lst(f, std::integral_constant<int, 10 * N + M>()); }
  static A *lst(const V &f, std::integral_constant<int, 23>) { return new A{il::value, {{E_(0), E_(3)}, {E_(1), E_(4)}, {E_(2), E_(5)}}}; }
  static A *lst(const V &f, std::integral_constant<int, 32>) { return new A{il::value, {{E_(0), E_(2), E_(4)}, {E_(1), E_(3), E_(5)}}}; }
  static A *lst(const V &f, std::integral_constant<int, 14>) { return new A{il::value, {{E_(0)}, {E_(1)}, {E_(2)}, {E_(3)}}}; }
  template <class B> static auto at(B &a, const V &x) -> decltype(a(0, 0)) { return a(x[0], x[1]); }
  static long dim(const A &a, long d) { return a.size(d); }
  static bool same(A &a, const V &) {
    const A &c = a;
    bool ok = a.Data() == c.data();
    il::Array2DView<T> w = c.view(); il::Array2DEdit<T> e = a.Edit();
    ok = ok && w.size(0) == N && w.size(1) == M && e.size(0) == N && e.size(1) == M;
    for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) ok = ok && &a(i, j) == &c(i, j) && &w(i, j) == &c(i, j) && &e(i, j) == &c(i, j);
    return ok;
  }
};
template <class T, int N, int M> struct S2C : NoView<T> {
  typedef il::StaticArray2C<T, N, M> A; typedef T Type; static const bool empties = false; static const int rank = 2;
  static V full(const A &) { return V{N, M}; }
  static A *mk(const V &) { return new A{}; }
  static A *mkv(const V &, const T &x) { return new A{x}; }
  static A *mkl(const V &, const V &f) { return lst(f, std::integral_constant<int, 10 * N + M>()); }
  static A *lst(const V &f, std::integral_constant<int, 23>) { return new A{il::value, {{E_(0), E_(1), E_(2)}, {E_(3), E_(4), E_(5)}}}; }
  static A *lst(const V &f, std::integral_constant<int, 32>) { return new A{il::value, {{E_(0), E_(1)}, {E_(2), E_(3)}, {E_(4), E_(5)}}}; }
  static A *lst(const V &f, std::integral_constant<int, 14>) { return new A{il::value, {{E_(0), E_(1), E_(2), E_(3)}}}; }
  template <class B> static auto at(B &a, const V &x) -> decltype(a(0, 0)) { return a(x[0], x[1]); }
  static long dim(const A &a, long d) { return a.size(d); }
  static bool same(A &a, const V &) { const A &c = a; bool ok = a.Data() == c.data(); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) ok = ok && &a(i, j) == &c(i, j); return ok; }
};
template <class T, int N, int M, int P> struct S3D : NoView<T> {
  typedef il::StaticArray3D<T, N, M, P> A; typedef T Type; static const bool empties = false; static const int rank = 3;
  static V full(const A &) { return V{N, M, P}; }
  static A *mk(const V &) { return new A{}; }
  static A *mkv(const V &, const T &x) { return new A{x}; }
  static A *mkl(const V &, const V &f) { return lst(f, std::integral_constant<int, 100 * N + 10 * M + P>()); }
  static A *lst(const V &f, std::integral_constant<int, 232>) {   // [k][j][i] lists; f has the last index fastest
    return new A{il::value, {{{E_(0), E_(6)}, {E_(2), E_(8)}, {E_(4), E_(10)}}, {{E_(1), E_(7)}, {E_(3), E_(9)}, {E_(5), E_(11)}}}}; }
  static A *lst(const V &f, std::integral_constant<int, 213>) { return new A{il::value, {{{E_(0), E_(3)}}, {{E_(1), E_(4)}}, {{E_(2), E_(5)}}}}; }
  template <class B> static auto at(B &a, const V &x) -> decltype(a(0, 0, 0)) { return a(x[0], x[1], x[2]); }
  static long dim(const A &a, long d) { return a.size(d); }
  static bool same(A &a, const V &) { const A &c = a; bool ok = a.Data() == c.data(); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) for (int k = 0; k < P; ++k) ok = ok && &a(i, j, k) == &c(i, j, k); return ok; }
};
template <class T, int N, int M, int P, int Q> struct S4D : NoView<T> {
  typedef il::StaticArray4D<T, N, M, P, Q> A; typedef T Type; static const bool empties = false; static const int rank = 4;
  static V full(const A &) { return V{N, M, P, Q}; }
  static A *mk(const V &) { return new A{}; }
  static A *mkv(const V &, const T &x) { return new A{x}; }
  static A *mkl(const V &, const V &) { exit(3); }
  template <class B> static auto at(B &a, const V &x) -> decltype(a(0, 0, 0, 0)) { return a(x[0], x[1], x[2], x[3]); }
  static long dim(const A &a, long d) { return a.size(d); }
  static bool same(A &a, const V &) { const A &c = a; return a.Data() == c.data(); }
};
template <class T, class A_, bool LOWER> struct Triangle : NoView<T> {
  typedef A_ A; typedef T Type; static const bool empties = true; static const int rank = 2;
  static V full(const A &a) { return V{a.size()}; }
  static A *mk(const V &n) { return new A(n[0]); }
  static A *mkv(const V &, const T &) { exit(3); }
  static A *mkl(const V &, const V &) { exit(3); }
  template <class B> static auto at(B &a, const V &x) -> decltype(a(0, 0)) { return a(x[0], x[1]); }
  static long dim(const A &a, long) { return a.size(); }
  static bool same(A &a, const V &n) { const A &c = a; bool ok = true; for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[0]; ++j) if (LOWER ? j <= i : i <= j) ok = ok && &a(i, j) == &c(i, j); return ok && (n[0] == 0 || a.Data() == &a(0, 0)); }
};
template <class T> struct TriD : NoView<T> {
  typedef il::TriDiagonal<T> A; typedef T Type; static const bool empties = false; static const int rank = 2;
  static V full(const A &a) { return V{a.size()}; }
  static A *mk(const V &n) { return new A(n[0]); }
  static A *mkv(const V &, const T &) { exit(3); }
  static A *mkl(const V &, const V &) { exit(3); }
  template <class B> static auto at(B &a, const V &x) -> decltype(a(0, 0)) { return a(x[0], x[1]); }
  static long dim(const A &a, long) { return a.size(); }
  static bool same(A &a, const V &n) {
    const A &c = a; bool ok = true;
    for (long i = 0; i < n[0]; ++i) {
      for (long k = -1; k <= 1; ++k) ok = ok && &a(i, k) == &c(i, k);
      ok = ok && a.DiagonalData() + i == &a(i, 0) && a.UpperData() + i == &a(i, 1) && (i == 0 || a.LowerData() + i - 1 == &a(i, -1));
    }
    return ok;
  }
};
template <class T> struct Band : NoView<T> {
  typedef il::BandArray2C<T> A; typedef T Type; static const bool empties = false; static const int rank = 2;
  static V full(const A &a) { return V{a.size(0), a.size(1), a.widthLeft(), a.widthRight()}; }
  static A *mk(const V &n) { if (n[0] == n[1] && n[2] == n[3]) return new A(n[0], n[2]); return new A(n[0], n[1], n[2], n[3]); }
  static A *mkv(const V &, const T &) { exit(3); }
  static A *mkl(const V &, const V &) { exit(3); }
  template <class B> static auto at(B &a, const V &x) -> decltype(a(0, 0)) { return a(x[0], x[1]); }
  static long dim(const A &a, long d) { return a.size(d); }
  static bool same(A &a, const V &n) { const A &c = a; bool ok = c.capacityRight() >= c.widthRight(); for (long i = 0; i < n[0]; ++i) for (long k = -n[2]; k <= n[3]; ++k) if (i + k >= 0 && i + k < n[1]) ok = ok && &a(i, k) == &c(i, k); return ok; }
};
template <class A> auto cap(const A &a, int) -> decltype(a.capacity()) { return a.capacity(); }
template <class A> long cap(const A &, long) { return 0; }

struct Idx { std::string kind; V n; };
static std::vector<V> enumerate(const std::string &kind, const V &n) {
  std::vector<V> r;
  V lo, hi;
  if (kind == "box") { lo = V(n.size(), 0); hi = n; }
  else if (kind == "lower" || kind == "upper") { lo = V{0, 0}; hi = V{n[0], n[0]}; }
  else if (kind == "tri") { lo = V{0, -1}; hi = V{n[0], 2}; }
  else { lo = V{0, -n[2]}; hi = V{n[0], n[3] + 1}; }
  V x = lo;
  for (size_t d = 0; d < x.size(); ++d) if (lo[d] >= hi[d]) return r;
  while (true) {
    bool ok = kind == "lower" ? x[1] <= x[0] : kind == "upper" ? x[0] <= x[1] : kind == "band" ? (x[0] + x[1] >= 0 && x[0] + x[1] < n[1]) : true;
    if (ok) r.push_back(x);
    int d = static_cast<int>(x.size()) - 1;
    while (d >= 0 && ++x[d] == hi[d]) { x[d] = lo[d]; --d; }
    if (d < 0) return r;
  }
}

template <class C> struct Driver {
  typedef typename C::A A; typedef typename C::Type T;
  static const int N = 3;
  std::string kind;
  std::unique_ptr<A> slot[N];
  bool lost[N];
  std::string obs(int k) {
    Json j;
    if (!slot[k] || lost[k]) { j.b("on", bool(slot[k])).b("lost", lost[k]).raw("n", "[]").raw("v", "[]").b("same", true).i("cap", 0); return j.end(); }
    A &a = *slot[k];
    const A &c = a;
    V n = C::full(c), v;
    for (const V &x : enumerate(kind, n)) v.push_back(Elem<T>::get(C::at(c, x)));
    j.b("on", true).b("lost", false).list("n", n).list("v", v).b("same", C::same(a, n)).i("cap", cap(c, 0));
    return j.end();
  }
  void run(Script &sc) {
    const std::string op = sc.str();
    const int s = static_cast<int>(sc.num()) - 1;
    V ret, pre;
    std::unique_ptr<A> &a = slot[s];
    bool ok = true;
    if (op == "new") { Heap h; dflt(a); lost[s] = false; }
    else if (op == "new_n") {
      V n = sc.list(), f = sc.list();
      { Heap h; ok = guarded([&] { a.reset(C::mk(n)); }); }
      if (ok) {
        std::vector<V> ix = enumerate(kind, n);
        for (size_t k = 0; k < ix.size(); ++k) {
          if (Elem<T>::cls) pre.push_back(Elem<T>::get(C::at(*a, ix[k])));
          T x = Elem<T>::make(f[k]); Heap h; C::at(*a, ix[k]) = x;
        }
        lost[s] = false;
      }
    } else if (op == "new_val") { V n = sc.list(); T x = Elem<T>::make(sc.num()); Heap h; a.reset(C::mkv(n, x)); lost[s] = false; }
    else if (op == "new_list") { V n = sc.list(), f = sc.list(); Heap h; a.reset(C::mkl(n, f)); lost[s] = false; }
    else if (op == "new_copy") { const A &u = *slot[sc.num() - 1]; Heap h; a.reset(new A(u)); lost[s] = false; }
    else if (op == "new_move") { int t = sc.num() - 1; Heap h; a.reset(new A(std::move(*slot[t]))); lost[s] = false; lost[t] = !C::empties; }
    else if (op == "copy_assign") { const A &u = *slot[sc.num() - 1]; Heap h; *a = u; lost[s] = false; }
    else if (op == "move_assign") { int t = sc.num() - 1; A &u = *slot[t]; if (s != t || C::empties) { Heap h; *a = std::move(u); } if (s != t) { lost[s] = false; lost[t] = !C::empties; } }
    else if (op == "destroy") { Heap h; a.reset(); lost[s] = false; }
    else if (op == "get") { V x = sc.list(); long r = 0; ok = guarded([&] { r = Elem<T>::get(C::at(static_cast<const A &>(*a), x)); }); ret.push_back(r); }
    else if (op == "put") { V x = sc.list(); T y = Elem<T>::make(sc.num()); Heap h; ok = guarded([&] { C::at(*a, x) = y; }); }
    else if (op == "dim") { long d = sc.num(); long r = 0; ok = guarded([&] { r = C::dim(*a, d); }); ret.push_back(r); }
    else if (op == "view") { long b = sc.num(), e = sc.num(); ok = guarded([&] { ret = C::view(*a, b, e); }); }
    else if (op == "edit") { long b = sc.num(), e = sc.num(), i = sc.num(); T y = Elem<T>::make(sc.num()); Heap h; ok = guarded([&] { C::edit(*a, b, e, i, y); }); }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
    if (!ok) { ret.clear(); pre.clear(); }
    std::vector<std::string> o;
    for (int k = 0; k < N; ++k) o.push_back(obs(k));
    Json j;
    j.str("st", ok ? "ok" : "abort").list("r", ret).list("pre", pre).rawlist("obs", o).i("live", reg().alive.size()).i("faults", reg().faults);
    if (reg().faults) j.str("fault", reg().first);
    j.emit();
  }
  template <class D = C> typename std::enable_if<D::empties>::type dflt(std::unique_ptr<A> &a) { a.reset(new A{}); }
  template <class D = C> typename std::enable_if<!D::empties>::type dflt(std::unique_ptr<A> &) { exit(3); }
  void all(Script &sc) {
    reg().reset();
    g_blocks = 0;
    for (int k = 0; k < N; ++k) lost[k] = false;
    while (sc.next()) {
      if (sc.line == "E") break;
      run(sc);
    }
    { Heap h; for (int k = 0; k < N; ++k) slot[k].reset(); }
    Json j;
    j.i("live", reg().alive.size()).i("faults", reg().faults).i("blocks", g_blocks);
    j.emit();
  }
};
template <class C> void drive(const std::string &kind, Script &sc) { Driver<C> d; d.kind = kind; d.all(sc); }
template <class T> bool byShape(const std::string &kind, const std::string &co, Script &sc) {
#if !defined(ONLY) || ONLY == 7
  if (co == "S1_0") drive<S1<T, 0>>(kind, sc);
  else if (co == "S1_1") drive<S1<T, 1>>(kind, sc);
  else if (co == "S1_3") drive<S1<T, 3>>(kind, sc);
  else if (co == "S1_4") drive<S1<T, 4>>(kind, sc);
  else if (co == "S2D_23") drive<S2D<T, 2, 3>>(kind, sc);
  else if (co == "S2D_32") drive<S2D<T, 3, 2>>(kind, sc);
  else if (co == "S2D_14") drive<S2D<T, 1, 4>>(kind, sc);
  else if (co == "S2C_23") drive<S2C<T, 2, 3>>(kind, sc);
  else if (co == "S2C_32") drive<S2C<T, 3, 2>>(kind, sc);
  else if (co == "S2C_14") drive<S2C<T, 1, 4>>(kind, sc);
  else if (co == "S3D_232") drive<S3D<T, 2, 3, 2>>(kind, sc);
  else if (co == "S3D_213") drive<S3D<T, 2, 1, 3>>(kind, sc);
  else if (co == "S4D_2122") drive<S4D<T, 2, 1, 2, 2>>(kind, sc);
  else if (co == "S4D_2323") drive<S4D<T, 2, 3, 2, 3>>(kind, sc);
  else return false;
  return true;
#else
  if (co == "lower") drive<Triangle<T, il::LowerArray2D<T>, true>>(kind, sc);
  else if (co == "upper") drive<Triangle<T, il::UpperArray2D<T>, false>>(kind, sc);
  else if (co == "tri") drive<TriD<T>>(kind, sc);
  else return false;
  return true;
#endif
}
int main() {
  heap_init();
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    sc.str();
    const std::string kind = sc.str(), ty = sc.str(), mode = sc.str(), co = sc.str();
    bool ok = true;
#if defined(ONLY) && ONLY == 7
    if (false) {}
#else
    if (co == "band") { if (ty == "int") drive<Band<int>>(kind, sc); else drive<Band<double>>(kind, sc); }
#endif
    else if (ty == "int") ok = byShape<int>(kind, co, sc);
    else if (ty == "double") ok = byShape<double>(kind, co, sc);
    else ok = byShape<Tracked>(kind, co, sc);
    if (!ok) return 3;
  }
  return 0;
}
