// il::Array2D/2C/3D/3C/4D/4C<T> driven by scripts.  Header: S <container> <type> <mode>
#include "vf.h"
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
using namespace vf;
typedef std::vector<long> V;
template <int N> struct I : std::integral_constant<int, N> {};

// rank dispatch
template <class A> A *mk(I<2>, const V &n) { return new A(n[0], n[1]); }
template <class A> A *mk(I<3>, const V &n) { return new A(n[0], n[1], n[2]); }
template <class A> A *mk(I<4>, const V &n) { return new A(n[0], n[1], n[2], n[3]); }
template <class A, class T> A *mkv(I<2>, const V &n, const T &x) { return new A(n[0], n[1], x); }
template <class A, class T> A *mkv(I<3>, const V &n, const T &x) { return new A(n[0], n[1], n[2], x); }
template <class A, class T> A *mkv(I<4>, const V &n, const T &x) { return new A(n[0], n[1], n[2], n[3], x); }
template <class A> auto at(I<2>, A &a, const V &x) -> decltype(a(0, 0)) { return a(x[0], x[1]); }
template <class A> auto at(I<3>, A &a, const V &x) -> decltype(a(0, 0, 0)) { return a(x[0], x[1], x[2]); }
template <class A> auto at(I<4>, A &a, const V &x) -> decltype(a(0, 0, 0, 0)) { return a(x[0], x[1], x[2], x[3]); }
template <class A> void rsz(I<2>, A &a, const V &n) { a.Resize(n[0], n[1]); }
template <class A> void rsz(I<3>, A &a, const V &n) { a.Resize(n[0], n[1], n[2]); }
template <class A> void rsz(I<4>, A &a, const V &n) { a.Resize(n[0], n[1], n[2], n[3]); }
template <class A> void rsv(I<2>, A &a, const V &n) { a.Reserve(n[0], n[1]); }
template <class A> void rsv(I<3>, A &a, const V &n) { a.Reserve(n[0], n[1], n[2]); }
template <class A> void rsv(I<4>, A &a, const V &n) { a.Reserve(n[0], n[1], n[2], n[3]); }

[[noreturn]] inline void unsupported(const char *what) { fprintf(stderr, "unsupported %s\n", what); exit(3); }

// what each container offers beyond the common part; F = fastest dimension
template <class A> struct Tr;
template <class T> struct Tr<il::Array2D<T>> { static const int rank = 2, F = 0; };
template <class T> struct Tr<il::Array2C<T>> { static const int rank = 2, F = 1; };
template <class T> struct Tr<il::Array3D<T>> { static const int rank = 3, F = 0; };
template <class T> struct Tr<il::Array3C<T>> { static const int rank = 3, F = 2; };
template <class T> struct Tr<il::Array4D<T>> { static const int rank = 4, F = 0; };
template <class T> struct Tr<il::Array4C<T>> { static const int rank = 4, F = 3; };

// optional operations, selected by overload
template <class A, class T> struct Opt {
  static A *emp(const V &, int) { unsupported("emp"); }
  static void rszv(A &, const V &, const T &) { unsupported("resize_val"); }
  static void rsze(A &, const V &, int) { unsupported("resize_emp"); }
  static void fill(A &, const T &) { unsupported("fill"); }
};
template <class T> struct Opt<il::Array2D<T>, T> {
  typedef il::Array2D<T> A;
  static A *emp(const V &n, int x) { return x % 2 == 0 ? new A(n[0], n[1], il::emplace, x) : new A(n[0], n[1], il::emplace, Elem<T>::make(x)); }
  static void rszv(A &a, const V &n, const T &x) { if ((n[0] + n[1]) % 2 == 0) a.Resize(n[0], n[1], x); else a.Resize(n[0], n[1], il::emplace, x); }
  static void rsze(A &a, const V &n, int x) { if (x % 2 == 0) a.Resize(n[0], n[1], il::emplace, x); else a.Resize(n[0], n[1], il::emplace, Elem<T>::make(x)); }
  static void fill(A &, const T &) { unsupported("fill"); }
};
template <class T> struct Opt<il::Array2C<T>, T> {
  typedef il::Array2C<T> A;
  static A *emp(const V &, int) { unsupported("emp"); }
  static void rszv(A &, const V &, const T &) { unsupported("resize_val"); }
  static void rsze(A &, const V &, int) { unsupported("resize_emp"); }
  static void fill(A &a, const T &x) { a.Set(x); }
};
// layout: strides and storage-order views agree with operator()
template <class A, class T> bool layout(I<2>, A &a, const V &n) {
  const A &c = a;
  bool ok = a.Data() == c.data();
  for (long i = 0; i < n[0]; ++i)
    for (long j = 0; j < n[1]; ++j) {
      const T *p = c.data() + i * c.stride(0) + j * c.stride(1);
      ok = ok && p == &c(i, j) && p == &a(i, j);
    }
  return ok;
}
template <class A, class T> bool layout(I<3>, A &a, const V &n) {
  const A &c = a;
  bool ok = a.Data() == c.data();
  for (long i = 0; i < n[0]; ++i)
    for (long j = 0; j < n[1]; ++j)
      for (long k = 0; k < n[2]; ++k) {
        const T *p = c.data() + i * c.stride(0) + j * c.stride(1) + k * c.stride(2);
        ok = ok && p == &c(i, j, k) && p == &a(i, j, k);
      }
  return ok;
}
template <class A, class T> bool layout(I<4>, A &a, const V &n) {
  const A &c = a;
  bool ok = a.Data() == c.data();
  if (n[0] * n[1] * n[2] * n[3] > 0) ok = ok && c.data() == &c(0, 0, 0, 0) && &a(0, 0, 0, 0) == c.data();
  return ok;
}
template <class T> bool lines(il::Array2D<T> &a) {
  const il::Array2D<T> &c = a;
  bool ok = true;
  for (long j = 0; j < a.size(1); ++j) ok = ok && (a.size(0) == 0 || (c.data(j) == &c(0, j) && a.Data(j) == &c(0, j)));
  il::Array2DView<T> w = c.view();
  il::Array2DEdit<T> e = a.Edit();
  ok = ok && w.size(0) == c.size(0) && w.size(1) == c.size(1) && e.size(0) == c.size(0) && e.size(1) == c.size(1);
  for (long i = 0; i < a.size(0); ++i) for (long j = 0; j < a.size(1); ++j) ok = ok && &w(i, j) == &c(i, j) && &e(i, j) == &c(i, j);
  return ok;
}
template <class T> bool lines(il::Array2C<T> &a) {
  const il::Array2C<T> &c = a;
  bool ok = true;
  for (long i = 0; i < a.size(0); ++i) ok = ok && (a.size(1) == 0 || (c.data(i) == &c(i, 0) && a.Data(i) == &c(i, 0)));
  il::Array2CView<T> w = c.view();
  il::Array2CEdit<T> e = a.Edit();
  ok = ok && w.size(0) == c.size(0) && w.size(1) == c.size(1) && e.size(0) == c.size(0) && e.size(1) == c.size(1);
  for (long i = 0; i < a.size(0); ++i) for (long j = 0; j < a.size(1); ++j) ok = ok && &w(i, j) == &c(i, j) && &e(i, j) == &c(i, j);
  return ok;
}
template <class A> bool lines(A &) { return true; }

// lists
template <class T> T E(const V &f, size_t k) { return Elem<T>::make(f[k]); }
template <class T> il::Array2D<T> *list(il::Array2D<T> *, const V &n, const V &f) {
  typedef il::Array2D<T> A;   // list of columns; f is row-major
  if (n[0] == 2 && n[1] == 3) return new A{il::value, {{E<T>(f, 0), E<T>(f, 3)}, {E<T>(f, 1), E<T>(f, 4)}, {E<T>(f, 2), E<T>(f, 5)}}};
  if (n[0] == 3 && n[1] == 2) return new A{il::value, {{E<T>(f, 0), E<T>(f, 2), E<T>(f, 4)}, {E<T>(f, 1), E<T>(f, 3), E<T>(f, 5)}}};
  if (n[0] == 1 && n[1] == 2) return new A{il::value, {{E<T>(f, 0)}, {E<T>(f, 1)}}};
  if (n[0] == 0 && n[1] == 0) return new A{il::value, {}};
  unsupported("list");
}
template <class T> il::Array2C<T> *list(il::Array2C<T> *, const V &n, const V &f) {
  typedef il::Array2C<T> A;   // list of rows
  if (n[0] == 2 && n[1] == 3) return new A{il::value, {{E<T>(f, 0), E<T>(f, 1), E<T>(f, 2)}, {E<T>(f, 3), E<T>(f, 4), E<T>(f, 5)}}};
  if (n[0] == 3 && n[1] == 2) return new A{il::value, {{E<T>(f, 0), E<T>(f, 1)}, {E<T>(f, 2), E<T>(f, 3)}, {E<T>(f, 4), E<T>(f, 5)}}};
  if (n[0] == 1 && n[1] == 2) return new A{il::value, {{E<T>(f, 0), E<T>(f, 1)}}};
  if (n[0] == 0 && n[1] == 0) return new A{il::value, {}};
  unsupported("list");
}
template <class T> il::Array3D<T> *list(il::Array3D<T> *, const V &n, const V &f) {
  typedef il::Array3D<T> A;   // outer list over i2, then i1, inner over i0
#define X(i, j, k) E<T>(f, ((i) * 3 + (j)) * 2 + (k))
  if (n[0] == 2 && n[1] == 3 && n[2] == 2)
    return new A{il::value, {{{X(0, 0, 0), X(1, 0, 0)}, {X(0, 1, 0), X(1, 1, 0)}, {X(0, 2, 0), X(1, 2, 0)}},
                             {{X(0, 0, 1), X(1, 0, 1)}, {X(0, 1, 1), X(1, 1, 1)}, {X(0, 2, 1), X(1, 2, 1)}}}};
  unsupported("list");
}
template <class T> il::Array3C<T> *list(il::Array3C<T> *, const V &n, const V &f) {
  typedef il::Array3C<T> A;
  if (n[0] == 2 && n[1] == 3 && n[2] == 2)
    return new A{il::value, {{{X(0, 0, 0), X(0, 0, 1)}, {X(0, 1, 0), X(0, 1, 1)}, {X(0, 2, 0), X(0, 2, 1)}},
                             {{X(1, 0, 0), X(1, 0, 1)}, {X(1, 1, 0), X(1, 1, 1)}, {X(1, 2, 0), X(1, 2, 1)}}}};
  unsupported("list");
}
template <class A> A *list(A *, const V &, const V &) { unsupported("list"); }

// aligned constructors (trivial types, ranks 2 and 3)
template <class A, class T> A *aln(I<2>, const V &n, const T *x, long al, long ar, long am) {
  bool s = ar == 0 && am == al;
  if (x) return s ? new A(n[0], n[1], *x, il::align, al) : new A(n[0], n[1], *x, il::align, al, ar, am);
  return s ? new A(n[0], n[1], il::align, al) : new A(n[0], n[1], il::align, al, ar, am);
}
template <class A, class T> A *aln(I<3>, const V &n, const T *x, long al, long ar, long am) {
  bool s = ar == 0 && am == al;
  if (x) return s ? new A(n[0], n[1], n[2], *x, il::align, al) : new A(n[0], n[1], n[2], *x, il::align, al, ar, am);
  return s ? new A(n[0], n[1], n[2], il::align, al) : new A(n[0], n[1], n[2], il::align, al, ar, am);
}
template <class A, class T> A *aln(I<4>, const V &, const T *, long, long, long) { unsupported("align"); }
template <class A> long alignmentOf(I<2>, const A &a) { return a.alignment(); }
template <class A> long alignmentOf(I<3>, const A &a) { return a.alignment(); }
template <class A> long alignmentOf(I<4>, const A &) { return 0; }

template <class A, class T>
struct Driver {
  static const int N = 3, RK = Tr<A>::rank;
  typedef I<RK> Rank;
  std::unique_ptr<A> slot[N];
  const T *prev[N];
  static T mkE(long v) { return Elem<T>::make(v); }
  static bool step(const V &n, V &x) {  // row-major successor
    for (int d = RK - 1; d >= 0; --d) { if (++x[d] < n[d]) return true; x[d] = 0; }
    return false;
  }
  static long prod(const V &n) { long p = 1; for (long k : n) p *= k; return p; }
  static V shape(const A &a) { V n; for (int d = 0; d < RK; ++d) n.push_back(a.size(d)); return n; }
  std::string obs(int k) {
    Json j;
    if (!slot[k]) { prev[k] = nullptr; j.b("on", false).raw("n", "[]").raw("v", "[]").raw("cap", "[]").i("al", 0).i("adr", 0).raw("lines", "[]").b("same", true).b("pch", false); return j.end(); }
    A &a = *slot[k];
    const A &c = a;
    V n = shape(a), cap, v, ln;
    for (int d = 0; d < RK; ++d) cap.push_back(a.capacity(d));
    bool same = true;
    if (prod(n) > 0) {
      V x(RK, 0);
      do {
        v.push_back(Elem<T>::get(at(Rank(), c, x)));
        same = same && &at(Rank(), c, x) == &at(Rank(), a, x);
        if (x[Tr<A>::F] == 0 && ln.size() < 16) ln.push_back(static_cast<long>(reinterpret_cast<std::size_t>(&at(Rank(), c, x)) % 6451200));
      } while (step(n, x));
    }
    same = same && layout<A, T>(Rank(), a, n) && lines(a);
    bool pch = c.data() != prev[k];
    prev[k] = c.data();
    j.b("on", true).list("n", n).list("v", v).list("cap", cap).i("al", alignmentOf(Rank(), c));
    j.i("adr", static_cast<long>(reinterpret_cast<std::size_t>(c.data()) % 6451200)).list("lines", ln).b("same", same).b("pch", pch);
    return j.end();
  }
  // write f (row-major over the current shape) into positions outside the old box
  void fillnew(A &a, const V &old, const V &f, V &pre) {
    V n = shape(a);
    if (prod(n) == 0) return;
    V x(RK, 0);
    size_t k = 0;
    do {
      bool in = true;
      for (int d = 0; d < RK; ++d) in = in && x[d] < old[d];
      if (!in && k < f.size()) {
        if (Elem<T>::cls) pre.push_back(Elem<T>::get(at(Rank(), a, x)));
        T y = mkE(f[k]);
        Heap h;
        at(Rank(), a, x) = y;
      }
      ++k;
    } while (step(n, x));
  }
  void run(Script &sc) {
    const std::string op = sc.str();
    int s = sc.num() - 1;
    V ret, pre;
    bool ok = true;
    std::unique_ptr<A> &a = slot[s];
    if (op == "new") { Heap h; a.reset(new A{}); }
    else if (op == "new_n") {
      V n = sc.list(), f = sc.list();
      { Heap h; ok = guarded([&] { a.reset(mk<A>(Rank(), n)); }); }
      if (ok) fillnew(*a, V(RK, 0), f, pre);
    } else if (op == "new_val") { V n = sc.list(); T x = mkE(sc.num()); Heap h; ok = guarded([&] { a.reset(mkv<A, T>(Rank(), n, x)); }); }
    else if (op == "new_emp") { V n = sc.list(); int x = sc.num(); Heap h; ok = guarded([&] { a.reset(Opt<A, T>::emp(n, x)); }); }
    else if (op == "new_list") { V n = sc.list(), f = sc.list(); Heap h; a.reset(list(static_cast<A *>(nullptr), n, f)); }
    else if (op == "new_aln") { V n = sc.list(); long al = sc.num(), ar = sc.num(), am = sc.num(); V f = sc.list(); aligned(a, n, false, 0, al, ar, am); fillnew(*a, V(RK, 0), f, pre); pre.clear(); }
    else if (op == "new_alv") { V n = sc.list(); long x = sc.num(); long al = sc.num(), ar = sc.num(), am = sc.num(); aligned(a, n, true, x, al, ar, am); }
    else if (op == "new_copy") { const A &u = *slot[sc.num() - 1]; Heap h; a.reset(new A(u)); }
    else if (op == "new_move") { A &u = *slot[sc.num() - 1]; Heap h; a.reset(new A(std::move(u))); }
    else if (op == "copy_assign") { const A &u = *slot[sc.num() - 1]; Heap h; *a = u; }
    else if (op == "move_assign") { A &u = *slot[sc.num() - 1]; Heap h; *a = std::move(u); }
    else if (op == "destroy") { Heap h; a.reset(); }
    else if (op == "get") { V x = sc.list(); long r = 0; ok = guarded([&] { r = Elem<T>::get(at(Rank(), static_cast<const A &>(*a), x)); }); ret.push_back(r); }
    else if (op == "put") { V x = sc.list(); T y = mkE(sc.num()); Heap h; ok = guarded([&] { at(Rank(), *a, x) = y; }); }
    else if (op == "fill") { T y = mkE(sc.num()); Heap h; Opt<A, T>::fill(*a, y); }
    else if (op == "dim") { long d = sc.num(), r = 0; ok = guarded([&] { r = a->size(d); a->capacity(d); }); ret.push_back(r); }
    else if (op == "resize") {
      V n = sc.list(), f = sc.list(), old = shape(*a);
      { Heap h; ok = guarded([&] { rsz(Rank(), *a, n); }); }
      if (ok) fillnew(*a, old, f, pre);
    } else if (op == "resize_val") { V n = sc.list(); T x = mkE(sc.num()); Heap h; ok = guarded([&] { Opt<A, T>::rszv(*a, n, x); }); }
    else if (op == "resize_emp") { V n = sc.list(); int x = sc.num(); Heap h; ok = guarded([&] { Opt<A, T>::rsze(*a, n, x); }); }
    else if (op == "resize_self") { V n = sc.list(), x = sc.list(); Heap h; Opt<A, T>::rszv(*a, n, at(Rank(), static_cast<const A &>(*a), x)); }
    else if (op == "reserve") { V n = sc.list(); Heap h; ok = guarded([&] { rsv(Rank(), *a, n); }); }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
    if (!ok) { ret.clear(); pre.clear(); }
    std::vector<std::string> o;
    for (int k = 0; k < N; ++k) o.push_back(obs(k));
    Json j;
    j.str("st", ok ? "ok" : "abort").list("r", ret).list("pre", pre).rawlist("obs", o).i("live", reg().alive.size()).i("faults", reg().faults);
    if (reg().faults) j.str("fault", reg().first);
    j.emit();
  }
  template <class U = T> typename std::enable_if<!Elem<U>::cls>::type aligned(std::unique_ptr<A> &a, const V &n, bool val, long x, long al, long ar, long am) {
    T y = mkE(x); Heap h; a.reset(aln<A, T>(Rank(), n, val ? &y : nullptr, al, ar, am));
  }
  template <class U = T> typename std::enable_if<Elem<U>::cls>::type aligned(std::unique_ptr<A> &, const V &, bool, long, long, long, long) { unsupported("align"); }
  void all(Script &sc) {
    reg().reset();
    g_blocks = 0;
    for (int k = 0; k < N; ++k) prev[k] = nullptr;
    while (sc.next()) { if (sc.line == "E") break; run(sc); }
    { Heap h; for (int k = 0; k < N; ++k) slot[k].reset(); }
    Json j;
    j.i("live", reg().alive.size()).i("faults", reg().faults).i("blocks", g_blocks);
    j.emit();
  }
};
template <template <class> class C> bool go(Script &sc, const std::string &ty) {
  if (ty == "int") { Driver<C<int>, int> d; d.all(sc); }
  else if (ty == "double") { Driver<C<double>, double> d; d.all(sc); }
  else if (ty == "tracked") { Driver<C<Tracked>, Tracked> d; d.all(sc); }
  else return false;
  return true;
}
int main() {
  heap_init();
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    sc.str();
    const std::string co = sc.str(), ty = sc.str();
    bool ok = false;
#ifndef ONLY
#define ONLY 0
#endif
#if ONLY == 0 || ONLY == 2
    if (co == "2D") ok = go<il::Array2D>(sc, ty);
    if (co == "2C") ok = go<il::Array2C>(sc, ty);
#endif
#if ONLY == 0 || ONLY == 3
    if (co == "3D") ok = go<il::Array3D>(sc, ty);
    if (co == "3C") ok = go<il::Array3C>(sc, ty);
    if (co == "4D") ok = go<il::Array4D>(sc, ty);
    if (co == "4C") ok = go<il::Array4C>(sc, ty);
#endif
    if (!ok) return 3;
  }
  return 0;
}
