// Every access to one object of a checked build.  Header: S <kind> <container> <type>
#include "vf.h"
#include <functional>
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2CView.h>
#include <il/Array2D.h>
#include <il/Array2DView.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/ArrayView.h>
#include <il/BandArray2C.h>
#include <il/Deque.h>
#include <il/LowerArray2D.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/Set.h>
#include <il/SmallArray.h>
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/String.h>
#include <il/TriDiagonal.h>
#include <il/UpperArray2D.h>
#include <il/container/3d/Array3DView.h>
using namespace vf;
typedef std::vector<long> V;
static long H(long v) {
  return v == 1000000000 ? LONG_MAX : v == -1000000000 ? LONG_MIN : v == 999999999 ? (1L << 32) : v == -999999999 ? -(1L << 32) : v;
}
struct Args { V ix, n, fill, rg; long x, d, j, i, k, how, what; bool w, front, past; };
static il::Range R(const V &r, int d) { return il::Range{H(r[2 * d]), H(r[2 * d + 1])}; }

struct Box {   // an object under test
  virtual ~Box() {}
  virtual void make(const Args &a) = 0;    // throws on a bad argument
  virtual void fill(const V &) = 0;
  virtual void drop() = 0;
  virtual bool on() = 0;
  virtual V size() = 0;
  virtual V cells() = 0;
  virtual V op(const std::string &op, const Args &a) { fprintf(stderr, "no operation %s\n", op.c_str()); exit(3); }
};
// index tuples, lexicographic
static std::vector<V> boxes(const V &n) {
  std::vector<V> r; V x(n.size(), 0);
  for (long m : n) if (m <= 0) return r;
  while (true) { r.push_back(x); int d = static_cast<int>(x.size()) - 1; while (d >= 0 && ++x[d] == n[d]) { x[d] = 0; --d; } if (d < 0) return r; }
}
template <int RANK> struct At;
template <> struct At<1> { template <class A> static auto at(A &a, const V &x) -> decltype(a[0]) { return a[H(x[0])]; } };
template <> struct At<2> { template <class A> static auto at(A &a, const V &x) -> decltype(a(0, 0)) { return a(H(x[0]), H(x[1])); } };
template <> struct At<3> { template <class A> static auto at(A &a, const V &x) -> decltype(a(0, 0, 0)) { return a(H(x[0]), H(x[1]), H(x[2])); } };
template <> struct At<4> { template <class A> static auto at(A &a, const V &x) -> decltype(a(0, 0, 0, 0)) { return a(H(x[0]), H(x[1]), H(x[2]), H(x[3])); } };

// containers with an object A, a const object, a shape
template <class A, class T, int RANK> struct Plain : Box {
  std::unique_ptr<A> a;
  bool on() override { return bool(a); }
  void drop() override { a.reset(); }
  virtual std::vector<V> tuples() { return boxes(size()); }
  void fill(const V &f) override { std::vector<V> t = tuples(); for (size_t k = 0; k < t.size() && k < f.size(); ++k) At<RANK>::at(*a, t[k]) = T(f[k]); }
  V cells() override { V r; const A &c = *a; for (const V &x : tuples()) r.push_back(long(At<RANK>::at(c, x))); return r; }
  V op(const std::string &o, const Args &g) override {
    V r;
    if (o == "elem") {
      if (g.w) At<RANK>::at(*a, g.ix) = T(g.x); else { const A &c = *a; r.push_back(long(At<RANK>::at(c, g.ix))); }
      return r;
    }
    return more(o, g);
  }
  virtual V more(const std::string &o, const Args &g) { return Box::op(o, g); }
};
template <class A> V dims(const A &a, int rank) { V r; for (int d = 0; d < rank; ++d) r.push_back(a.size(d)); return r; }
template <class T, class W> V list(const W &w) { V r; for (il::int_t k = 0; k < w.size(); ++k) r.push_back(long(w[k])); return r; }
template <class T, class W> void set(W w, long x) { for (il::int_t k = 0; k < w.size(); ++k) w[k] = T(x); }
template <class W> V list2(W w) { V r; for (il::int_t j = 0; j < w.size(1); ++j) for (il::int_t i = 0; i < w.size(0); ++i) r.push_back(long(w(i, j))); return r; }
template <class T, class W> void set2(W w, long x) { for (il::int_t j = 0; j < w.size(1); ++j) for (il::int_t i = 0; i < w.size(0); ++i) w(i, j) = T(x); }

template <class A, class T> struct Lin : Plain<A, T, 1> {
  using Plain<A, T, 1>::a;
  V size() override { return V{a->size()}; }
  V more(const std::string &o, const Args &g) override {
    const A &c = *a; V r;
    if (o == "last") { if (g.w) a->Back() = T(g.x); else r.push_back(long(c.back())); }
    else if (o == "range") { if (g.w) set<T>(a->Edit(R(g.rg, 0)), g.x); else r = list<T>(c.view(R(g.rg, 0))); }
    else return grow(o, g);
    return r;
  }
  virtual V grow(const std::string &o, const Args &g) { return Box::op(o, g); }
};
template <class T> struct Arr : Lin<il::Array<T>, T> {
  using Plain<il::Array<T>, T, 1>::a; typedef il::Array<T> A;
  void make(const Args &g) override {
    const long n = H(g.n[0]);
    A b = g.how == 0 ? A{n} : g.how == 1 ? A{n, T(0)} : g.how == 2 ? A{n, il::align, 32} : A{n, T(0), il::align, 32};
    a.reset(new A(std::move(b)));
    if (g.how == 1) { a->Reserve(n + 3); }
    if (g.how == 2 && n < 5) { a->Resize(n + 4); a->Resize(n); }
  }
  V grow(const std::string &o, const Args &g) override {
    if (o == "resize") { if (g.n[0] % 2) a->Resize(H(g.n[0]), T(3)); else a->Resize(H(g.n[0])); this->fill(g.fill); }
    else if (o == "reserve") a->Reserve(H(g.n[0]));
    else return Box::op(o, g);
    return V{};
  }
};
template <class T> struct Small : Lin<il::SmallArray<T, 2>, T> {
  using Plain<il::SmallArray<T, 2>, T, 1>::a; typedef il::SmallArray<T, 2> A;
  void make(const Args &g) override {
    const long n = H(g.n[0]);
    if (g.how % 2) a.reset(new A(n, T(0))); else a.reset(new A(n));
    if (g.how == 2) { a->Reserve(n + 2); }
  }
  V grow(const std::string &o, const Args &g) override {
    if (o == "resize") { a->Resize(H(g.n[0])); this->fill(g.fill); }
    else if (o == "reserve") a->Reserve(H(g.n[0]));
    else return Box::op(o, g);
    return V{};
  }
};
template <class T, int N> struct Stat1 : Lin<il::StaticArray<T, N>, T> { void make(const Args &) override { this->a.reset(new il::StaticArray<T, N>{}); } };
template <class T> struct Stat0 : Plain<il::StaticArray<T, 0>, T, 1> {
  typedef il::StaticArray<T, 0> A;
  void make(const Args &) override { this->a.reset(new A{}); }
  V size() override { return V{this->a->size()}; }
};
template <class A, class T, int RANK> struct StatN : Plain<A, T, RANK> {
  void make(const Args &) override { this->a.reset(new A{}); }
  V size() override { return dims(*this->a, RANK); }
  V more(const std::string &o, const Args &g) override { if (o == "dim") return V{static_cast<const A &>(*this->a).size(H(g.d))}; return Box::op(o, g); }
};
// growable, rank 2 to 4
template <class A, class T, int RANK> struct Multi : Plain<A, T, RANK> {
  using Plain<A, T, RANK>::a;
  V size() override { return dims(*a, RANK); }
  V more(const std::string &o, const Args &g) override {
    const A &c = *a;
    if (o == "dim") return V{c.size(H(g.d))};
    if (o == "capacity") { c.capacity(H(g.d)); return V{}; }
    return rest(o, g);
  }
  virtual V rest(const std::string &o, const Args &g) { return Box::op(o, g); }
};
template <class A, class T, bool D> struct Mat : Multi<A, T, 2> {
  using Plain<A, T, 2>::a;
  void make(const Args &g) override {
    const long p = H(g.n[0]), q = H(g.n[1]);
    A b = g.how == 0 ? A{p, q} : g.how == 1 ? A{p, q, T(0)} : g.how == 2 ? A{p, q, il::align, 32} : A{p, q, T(0), il::align, 32};
    a.reset(new A(std::move(b)));
    if (g.how == 1) a->Reserve(p + 2, q + 1);
    if (g.how == 2) { a->Resize(p + 1, q + 2); a->Resize(p, q); }
  }
  V rest(const std::string &o, const Args &g) override {
    const A &c = *a; V r;
    if (o == "stride") c.stride(H(g.d));
    else if (o == "resize") { resize(*a, g, std::integral_constant<bool, D>()); this->fill(g.fill); }
    else if (o == "reserve") a->Reserve(H(g.n[0]), H(g.n[1]));
    else if (o == "line") {
      const long m = c.size(D ? 0 : 1);
      if (g.w) { T *p = a->Data(H(g.j)); for (long k = 0; k < m; ++k) p[k] = T(g.x); }
      else { const T *p = c.data(H(g.j)); for (long k = 0; k < m; ++k) r.push_back(long(p[k])); }
    } else return views(o, g, std::integral_constant<bool, D>());
    return r;
  }
  static void resize(A &a, const Args &g, std::true_type) { if (g.n[0] % 2) a.Resize(H(g.n[0]), H(g.n[1]), T(3)); else a.Resize(H(g.n[0]), H(g.n[1])); }
  static void resize(A &a, const Args &g, std::false_type) { a.Resize(H(g.n[0]), H(g.n[1])); }
  V views(const std::string &o, const Args &g, std::true_type) {
    const A &c = *a; V r;
    if (o == "lineview") { if (g.w) set<T>(a->Edit(R(g.rg, 0), H(g.j)), g.x); else r = list<T>(c.view(R(g.rg, 0), H(g.j))); }
    else if (o == "block") { if (g.w) set2<T>(a->Edit(R(g.rg, 0), R(g.rg, 1)), g.x); else r = list2(c.view(R(g.rg, 0), R(g.rg, 1))); }
    else return Box::op(o, g);
    return r;
  }
  V views(const std::string &o, const Args &g, std::false_type) {
    const A &c = *a; V r;
    if (o == "lineview") { r = list<T>(c.view(H(g.j), R(g.rg, 0))); }
    else return Box::op(o, g);
    return r;
  }
};
template <class A, class T> struct Cube : Multi<A, T, 3> {
  using Plain<A, T, 3>::a;
  void make(const Args &g) override {
    const long p = H(g.n[0]), q = H(g.n[1]), s = H(g.n[2]);
    A b = g.how == 0 ? A{p, q, s} : g.how == 1 ? A{p, q, s, T(0)} : g.how == 2 ? A{p, q, s, il::align, 32} : A{p, q, s, T(0), il::align, 32};
    a.reset(new A(std::move(b)));
    if (g.how == 1) a->Reserve(p + 1, q + 2, s + 1);
  }
  V rest(const std::string &o, const Args &g) override {
    if (o == "stride") static_cast<const A &>(*a).stride(H(g.d));
    else if (o == "resize") { a->Resize(H(g.n[0]), H(g.n[1]), H(g.n[2])); this->fill(g.fill); }
    else if (o == "reserve") a->Reserve(H(g.n[0]), H(g.n[1]), H(g.n[2]));
    else return Box::op(o, g);
    return V{};
  }
};
template <class A, class T> struct Four : Multi<A, T, 4> {
  using Plain<A, T, 4>::a;
  void make(const Args &g) override {
    const long p = H(g.n[0]), q = H(g.n[1]), s = H(g.n[2]), t = H(g.n[3]);
    if (g.how % 2) a.reset(new A(p, q, s, t, T(0))); else a.reset(new A(p, q, s, t));
    if (g.how == 2) a->Reserve(p + 1, q + 1, s + 1, t + 2);
  }
  V rest(const std::string &o, const Args &g) override {
    if (o == "resize") { a->Resize(H(g.n[0]), H(g.n[1]), H(g.n[2]), H(g.n[3])); this->fill(g.fill); }
    else if (o == "reserve") a->Reserve(H(g.n[0]), H(g.n[1]), H(g.n[2]), H(g.n[3]));
    else return Box::op(o, g);
    return V{};
  }
};
// views of memory
template <class T> struct View1 : Box {
  std::unique_ptr<T[]> mem; std::unique_ptr<il::ArrayView<T>> c; std::unique_ptr<il::ArrayEdit<T>> e;
  bool on() override { return bool(e); }
  void drop() override { c.reset(); e.reset(); mem.reset(); }
  V size() override { return V{c->size()}; }
  V cells() override { return list<T>(*c); }
  void fill(const V &f) override { for (size_t k = 0; k < f.size(); ++k) (*e)[k] = T(f[k]); }
  void make(const Args &g) override {
    const long n = H(g.n[0]);
    if (n >= 0) mem.reset(new T[n]);
    c.reset(new il::ArrayView<T>(mem.get(), n)); e.reset(new il::ArrayEdit<T>(mem.get(), n));
  }
  V op(const std::string &o, const Args &g) override {
    V r;
    if (o == "elem") { if (g.w) (*e)[H(g.ix[0])] = T(g.x); else r.push_back(long((*c)[H(g.ix[0])])); }
    else if (o == "last") { if (g.w) e->Back() = T(g.x); else r.push_back(long(c->back())); }
    else if (o == "range") { if (g.w) set<T>(e->Edit(R(g.rg, 0)), g.x); else r = list<T>(g.rg[0] % 2 ? c->view(R(g.rg, 0)) : e->view(R(g.rg, 0))); }
    else return Box::op(o, g);
    return r;
  }
};
template <class T, class C, class E, bool D> struct View2 : Box {
  std::unique_ptr<T[]> mem; std::unique_ptr<C> c; std::unique_ptr<E> e;
  bool on() override { return bool(e); }
  void drop() override { c.reset(); e.reset(); mem.reset(); }
  V size() override { return dims(*c, 2); }
  V cells() override { V r; for (const V &x : boxes(size())) r.push_back(long((*c)(x[0], x[1]))); return r; }
  void fill(const V &f) override { std::vector<V> t = boxes(size()); for (size_t k = 0; k < f.size(); ++k) (*e)(t[k][0], t[k][1]) = T(f[k]); }
  void make(const Args &g) override {
    const long n = H(g.n[0]), m = H(g.n[1]), in = D ? n : m, out = D ? m : n, s = in >= 0 && in < 100 ? in + g.how : 5;
    if (n >= 0 && m >= 0) mem.reset(new T[out * s]);
    c.reset(new C(mem.get(), n, m, s)); e.reset(new E(mem.get(), n, m, s, 0, 0));
  }
  V op(const std::string &o, const Args &g) override {
    V r;
    if (o == "elem") { if (g.w) (*e)(H(g.ix[0]), H(g.ix[1])) = T(g.x); else r.push_back(long((*c)(H(g.ix[0]), H(g.ix[1])))); }
    else if (o == "dim") r.push_back(c->size(H(g.d)));
    else if (o == "stride") c->stride(H(g.d));
    else if (o == "block") return block(g, std::integral_constant<bool, D>());
    else return Box::op(o, g);
    return r;
  }
  V block(const Args &g, std::true_type) { V r; if (g.w) set2<T>(e->Edit(R(g.rg, 0), R(g.rg, 1)), g.x); else r = list2(c->view(R(g.rg, 0), R(g.rg, 1))); return r; }
  V block(const Args &g, std::false_type) { V r; E w = e->Edit(R(g.rg, 0), R(g.rg, 1)); if (g.w) set2<T>(w, g.x); else r = list2(w); return r; }
};
template <class T> struct View3 : Box {
  std::unique_ptr<T[]> mem; std::unique_ptr<il::Array3DView<T>> c; std::unique_ptr<il::Array3DEdit<T>> e;
  bool on() override { return bool(e); }
  void drop() override { c.reset(); e.reset(); mem.reset(); }
  V size() override { return dims(*c, 3); }
  V cells() override { V r; for (const V &x : boxes(size())) r.push_back(long((*c)(x[0], x[1], x[2]))); return r; }
  void fill(const V &f) override { std::vector<V> t = boxes(size()); for (size_t k = 0; k < f.size(); ++k) At<3>::at(*e, t[k]) = T(f[k]); }
  void make(const Args &g) override {
    const long n = H(g.n[0]), m = H(g.n[1]), q = H(g.n[2]), s1 = n >= 0 && n < 100 ? n + g.how % 2 : 5, s2 = m >= 0 && m < 100 ? m + g.how / 2 : 5;
    if (n >= 0 && m >= 0 && q >= 0) mem.reset(new T[s1 * s2 * q]);
    c.reset(new il::Array3DView<T>(mem.get(), n, m, q, s1, s2)); e.reset(new il::Array3DEdit<T>(mem.get(), n, m, q, s1, s2));
  }
  V op(const std::string &o, const Args &g) override {
    V r;
    if (o == "elem") { if (g.w) At<3>::at(*e, g.ix) = T(g.x); else r.push_back(long(At<3>::at(*c, g.ix))); }
    else if (o == "dim") r.push_back(c->size(H(g.d)));
    else return Box::op(o, g);
    return r;
  }
};
template <class A, class T, bool LOWER> struct Tri : Plain<A, T, 2> {
  using Plain<A, T, 2>::a;
  V size() override { return V{a->size()}; }
  std::vector<V> tuples() override { std::vector<V> r; for (const V &x : boxes(V{a->size(), a->size()})) if (LOWER ? x[1] <= x[0] : x[0] <= x[1]) r.push_back(x); return r; }
  void make(const Args &g) override { a.reset(new A(H(g.n[0]))); }
};
template <class T> struct TriD : Plain<il::TriDiagonal<T>, T, 2> {
  V size() override { return V{this->a->size()}; }
  std::vector<V> tuples() override { std::vector<V> r; for (V x : boxes(V{this->a->size(), 3})) { x[1] -= 1; r.push_back(x); } return r; }
  void make(const Args &g) override { this->a.reset(new il::TriDiagonal<T>(H(g.n[0]))); }
};
template <class T> struct Band : Plain<il::BandArray2C<T>, T, 2> {
  using Plain<il::BandArray2C<T>, T, 2>::a;
  V size() override { return V{a->size(0), a->size(1), a->widthLeft(), a->widthRight()}; }
  std::vector<V> tuples() override {
    std::vector<V> r; const V n = size();
    for (V x : boxes(V{n[0], n[2] + n[3] + 1})) { x[1] -= n[2]; if (x[0] + x[1] >= 0 && x[0] + x[1] < n[1]) r.push_back(x); }
    return r;
  }
  void make(const Args &g) override {
    if (g.n[0] == g.n[1] && g.n[2] == g.n[3] && g.how % 2) a.reset(new il::BandArray2C<T>(H(g.n[0]), H(g.n[2])));
    else a.reset(new il::BandArray2C<T>(H(g.n[0]), H(g.n[1]), H(g.n[2]), H(g.n[3])));
  }
};
struct Rag : Plain<il::SparseMatrixCSR<int, double>, double, 2> {
  typedef il::SparseMatrixCSR<int, double> A;
  V size() override { V r{a->size(1)}; for (il::int_t i = 0; i < a->size(0); ++i) r.push_back(a->row(i + 1) - a->row(i)); return r; }
  std::vector<V> tuples() override { std::vector<V> r; const V n = size(); for (long i = 0; i + 1 < long(n.size()); ++i) for (long k = 0; k < n[i + 1]; ++k) r.push_back(V{i, k}); return r; }
  void make(const Args &g) override {
    il::Array<int> col{}, row{}; row.Append(0);
    for (size_t i = 1; i < g.n.size(); ++i) { for (long k = 0; k < g.n[i]; ++k) col.Append(int(k)); row.Append(int(col.size())); }
    const il::int_t nz = col.size(), h = static_cast<il::int_t>(g.n.size()) - 1;
    if (g.how % 2) a.reset(new A(h, g.n[0], col, row)); else a.reset(new A(h, g.n[0], col, row, il::Array<double>{nz, 0.0}));
  }
  V more(const std::string &o, const Args &g) override { if (o == "dim") return V{a->size(H(g.d))}; return Box::op(o, g); }
};
template <class T> struct Seq : Box {
  std::unique_ptr<il::Deque<T>> a;
  bool on() override { return bool(a); }
  void drop() override { a.reset(); }
  V size() override { return V{a->size()}; }
  V cells() override { V r; il::Deque<T> b = *a; while (b.size()) { r.push_back(long(b.front())); b.PopFront(); } return r; }
  void fill(const V &f) override { for (long x : f) a->PushBack(T(x)); }
  void make(const Args &g) override {
    const long n = H(g.n[0]);
    if (n < 0) { a.reset(new il::Deque<T>(n)); return; }
    a.reset(new il::Deque<T>(n + 2));
    for (int k = 0; k < g.how; ++k) { a->PushBack(T(9)); if (k % 2) a->PopBack(); else a->PopFront(); }   // where it starts
    if (g.how == 2) { a->PushBack(T(1)); a->PushBack(T(2)); a->PopFront(); a->PopFront(); }
  }
  V op(const std::string &o, const Args &g) override {
    const il::Deque<T> &c = *a; V r;
    if (o == "first") { if (g.w) a->Front() = T(g.x); else r.push_back(long(c.front())); }
    else if (o == "last") { if (g.w) a->Back() = T(g.x); else r.push_back(long(c.back())); }
    else if (o == "pop") { if (g.front) a->PopFront(); else a->PopBack(); }
    else return Box::op(o, g);
    return r;
  }
};
struct Text : Box {
  std::unique_ptr<il::String> a;
  bool pad;
  bool on() override { return bool(a); }
  void drop() override { a.reset(); }
  V size() override { return V{a->size() - base()}; }
  long base() { return pad ? 30 : 0; }     // a large string: thirty more characters in front
  V cells() override { V r; for (il::int_t k = base(); k < a->size(); ++k) r.push_back(static_cast<unsigned char>(a->data()[k])); return r; }
  void fill(const V &f) override { for (long x : f) a->Append(static_cast<char>(x)); }
  void make(const Args &g) override {
    pad = false;
    if (H(g.n[0]) < 0) { a.reset(new il::String(il::StringType::Ascii, "abc", H(g.n[0]))); return; }
    a.reset(new il::String{}); if (g.how == 2) a->Reserve(40);
  }
  static V bytes(const il::StringView &s) { V r; for (il::int_t k = 0; k < s.size(); ++k) r.push_back(static_cast<unsigned char>(s[k])); return r; }
  V op(const std::string &o, const Args &g) override {
    const il::String &c = *a; const il::StringView s{c}; V r;
    const long i = H(g.i);
    if (o == "elem") r.push_back(static_cast<unsigned char>(s[H(g.ix[0])]));
    else if (o == "range") {
      il::Range q = R(g.rg, 0);
      r = bytes(s.subview(q.begin, q.end));
      if (bytes(c.subview(q.begin, q.end)) != r || bytes(il::StringView{c.substring(q.begin, q.end)}) != r) r.push_back(-1);
    } else if (o == "insert") {
      if (g.k == 1) a->Insert(i, static_cast<char>(g.x));
      else if (g.k == 2) { const char t[3] = {static_cast<char>(g.x), static_cast<char>(g.x), 0}; a->Insert(i, t); }
      else a->Insert(i, g.k, static_cast<char>(g.x));
    } else if (o == "cut") { il::StringView t{c}; if (g.front) t.removePrefix(i); else t.removeSuffix(i); r = bytes(t); }
    else if (o == "fromend") r.push_back(static_cast<unsigned char>(s.back(i)));
    else if (o == "asks") { if (g.what == 0) s.hasDigit(i); else if (g.what == 1) s.hasSpace(i); else if (g.what == 2) s.hasNewLine(i); else if (g.what == 3) s.hasHexaDecimal(i); else s.rune(i); }
    else return Box::op(o, g);
    return r;
  }
};
// both parts of a slot are refused when they are out of range
template <class M> struct Slots : Box {
  std::unique_ptr<M> a;
  bool on() override { return bool(a); }
  void drop() override { a.reset(); }
  V size() override { return V{a->nbElements()}; }
  il::spot_t spot(long k) { il::spot_t i = a->spotBegin(); while (k-- > 0) i = a->next(i); return i; }
  V cells() override { V r; for (il::spot_t i = a->spotBegin(); i.index != a->spotEnd().index; i = a->next(i)) r.push_back(val(i)); return r; }
  virtual long val(il::spot_t i) = 0;
};
template <class M, bool ERASE> struct Maps : Slots<M> {
  using Slots<M>::a;
  long val(il::spot_t i) override { const M &c = *a; return c.value(i); }
  void make(const Args &g) override { a.reset(g.how % 2 ? new M(g.n[0] + 2) : new M{}); }
  // the values follow the iteration order
  void fill(const V &f) override { for (size_t k = 0; k < f.size(); ++k) a->Set(int(7 * k + 1), 0); size_t k = 0; for (il::spot_t i = a->spotBegin(); i.index != a->spotEnd().index; i = a->next(i)) a->Value(i) = int(f[k++]); }
  V op(const std::string &o, const Args &g) override {
    const M &c = *a; V r;
    if (o == "elem") {
      long k = g.ix[0]; il::spot_t i = this->spot(k > 0 && k < c.nbElements() ? k : 0);
      if (k < 0 || k >= c.nbElements()) i.index = k < 0 ? H(k) : c.spotEnd().index + (k < 100 ? k - c.nbElements() : H(k) / 2);
      if (g.w) a->Value(i) = int(g.x); else { c.key(i); r.push_back(c.value(i)); }
    } else if (o == "noslot") {
      const il::spot_t i = g.past ? c.spotEnd() : c.search(5);
      if (g.what == 0) c.key(i); else if (g.what == 1) c.value(i); else if (g.what == 2) a->Value(i) = 3; else third(i, std::integral_constant<bool, ERASE>());
    } else return Box::op(o, g);
    return r;
  }
  void third(il::spot_t i, std::true_type) { if (i.index == a->spotEnd().index) a->value(i); else a->erase(i); }
  void third(il::spot_t i, std::false_type) { a->key(i); }
};
struct Sets : Slots<il::Set<int>> {
  long val(il::spot_t i) override { return pos(a->element(i)); }
  V order;
  long pos(long x) { for (size_t k = 0; k < order.size(); ++k) if (order[k] == x) return 11 + k; return -1; }
  void make(const Args &) override { a.reset(new il::Set<int>{}); order.clear(); }
  void fill(const V &f) override { for (size_t k = 0; k < f.size(); ++k) a->Add(int(7 * k + 1)); for (il::spot_t i = a->spotBegin(); i.index != a->spotEnd().index; i = a->next(i)) order.push_back(a->element(i)); }
  V op(const std::string &o, const Args &g) override {
    const il::Set<int> &c = *a; V r;
    if (o == "elem") {
      long k = g.ix[0]; il::spot_t i = spot(k > 0 && k < c.nbElements() ? k : 0);
      if (k < 0 || k >= c.nbElements()) i.index = k < 0 ? H(k) : c.spotEnd().index + (k < 100 ? k - c.nbElements() : H(k) / 2);
      r.push_back(pos(c.element(i)));
    } else if (o == "noslot") c.element(g.past ? c.spotEnd() : c.search(5));
    else return Box::op(o, g);
    return r;
  }
};
template <class T> Box *make1(const std::string &c, const V &n) {
  if (c == "array") return new Arr<T>;
  if (c == "small") return new Small<T>;
  if (c == "a2d") return new Mat<il::Array2D<T>, T, true>;
  if (c == "a2c") return new Mat<il::Array2C<T>, T, false>;
  if (c == "a3d") return new Cube<il::Array3D<T>, T>;
  if (c == "a3c") return new Cube<il::Array3C<T>, T>;
  if (c == "a4d") return new Four<il::Array4D<T>, T>;
  if (c == "a4c") return new Four<il::Array4C<T>, T>;
  if (c == "v1") return new View1<T>;
  if (c == "v2d") return new View2<T, il::Array2DView<T>, il::Array2DEdit<T>, true>;
  if (c == "v2c") return new View2<T, il::Array2CView<T>, il::Array2CEdit<T>, false>;
  if (c == "v3") return new View3<T>;
  if (c == "lower") return new Tri<il::LowerArray2D<T>, T, true>;
  if (c == "upper") return new Tri<il::UpperArray2D<T>, T, false>;
  if (c == "tri") return new TriD<T>;
  if (c == "band") return new Band<T>;
  if (c == "csr") return new Rag;
  if (c == "deque") return new Seq<T>;
  if (c == "text") return new Text;
  if (c == "map") return new Maps<il::Map<int, int>, true>;
  if (c == "maparray") return new Maps<il::MapArray<int, int>, false>;
  if (c == "set") return new Sets;
  if (c == "s1") { if (n[0] == 0) return new Stat0<T>; if (n[0] == 1) return new Stat1<T, 1>; if (n[0] == 3) return new Stat1<T, 3>; return new Stat1<T, 4>; }
  if (c == "s2d") { if (n[0] == 2) return new StatN<il::StaticArray2D<T, 2, 3>, T, 2>; return new StatN<il::StaticArray2D<T, 3, 2>, T, 2>; }
  if (c == "s2c") { if (n[0] == 2) return new StatN<il::StaticArray2C<T, 2, 3>, T, 2>; return new StatN<il::StaticArray2C<T, 3, 2>, T, 2>; }
  if (c == "s3d") return new StatN<il::StaticArray3D<T, 2, 3, 2>, T, 3>;
  if (c == "s4d") return new StatN<il::StaticArray4D<T, 2, 3, 2, 3>, T, 4>;
  fprintf(stderr, "unknown container %s\n", c.c_str());
  exit(3);
}
int main() {

  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    sc.str(); sc.str();
    const std::string co = sc.str(), ty = sc.str();
  
    std::unique_ptr<Box> b;
    while (sc.next()) {
      if (sc.line == "E") break;
      std::string op = sc.str();
      Args g; g.x = g.d = g.j = g.i = g.k = g.how = g.what = 0; g.w = g.front = g.past = false;
      while (sc.more()) {
        const std::string f = sc.str();
        if (f == "ix") g.ix = sc.list(); else if (f == "n") g.n = sc.list(); else if (f == "fill") g.fill = sc.list(); else if (f == "rg") g.rg = sc.list();
        else { const long v = sc.num(); if (f == "x") g.x = v; else if (f == "d") g.d = v; else if (f == "j") g.j = v; else if (f == "i") g.i = v; else if (f == "k") g.k = v; else if (f == "how") g.how = v; else if (f == "what") g.what = v; else if (f == "w") g.w = v; else if (f == "front") g.front = v; else if (f == "past") g.past = v; }
      }
      bool ok = true; V r;
      if (op == "make") {
        b.reset(ty == "int" ? make1<int>(co, g.n) : make1<double>(co, g.n));
        { ok = guarded([&] { b->make(g); }); }
        if (ok) { b->fill(g.fill); } else { b->drop(); b.reset(); }
      } else {
        if (op == "room") op = g.what ? "stride" : "capacity";
        else if (op == "line" || op == "lineview") g.d = 0;
        ok = guarded([&] { r = b->op(op, g); });
        if (!ok) r.clear();
      }
      Json j;
      j.str("st", ok ? "ok" : "abort").list("got", r).b("on", bool(b)).list("size", b ? b->size() : V{}).list("cells", b ? b->cells() : V{});
      j.emit();
      
    }
    if (b) { b->drop(); b.reset(); }
    Json j; j.i("blocks", 0); j.emit();
  }
  return 0;
}
