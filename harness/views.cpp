// Views and edits of Array, SmallArray, StaticArray, Array2D, Array2C, StaticArray2D and raw memory.
// Header: S views <kind> <elem> <spare> <mode>
#include "vf.h"
#include <il/core.h>
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/Array2D.h>
#include <il/Array2C.h>
#include <il/StaticArray2D.h>
#include <il/ArrayView.h>
#include <il/Array2DView.h>
#include <il/Array2CView.h>
#include <il/container/3d/Array3DView.h>
using namespace vf;
typedef std::vector<long> L;
enum Fam { F1, F2D, F2C, F3 };
template <typename T> struct V {
  bool on, w; Fam f;
  il::ArrayView<T> v1; il::ArrayEdit<T> e1;
  il::Array2DView<T> v2; il::Array2DEdit<T> e2;
  il::Array2CView<T> vc; il::Array2CEdit<T> ec;
  il::Array3DView<T> v3; il::Array3DEdit<T> e3;
  V() : on(false), w(false), f(F1) {}
  V(il::ArrayView<T> x) : on(true), w(false), f(F1), v1(x) {}
  V(il::ArrayEdit<T> x) : on(true), w(true), f(F1), e1(x) {}
  V(il::Array2DView<T> x) : on(true), w(false), f(F2D), v2(x) {}
  V(il::Array2DEdit<T> x) : on(true), w(true), f(F2D), e2(x) {}
  V(il::Array2CView<T> x) : on(true), w(false), f(F2C), vc(x) {}
  V(il::Array2CEdit<T> x) : on(true), w(true), f(F2C), ec(x) {}
  V(il::Array3DView<T> x) : on(true), w(false), f(F3), v3(x) {}
  V(il::Array3DEdit<T> x) : on(true), w(true), f(F3), e3(x) {}
  const il::ArrayView<T> &c1() const { return w ? e1 : v1; }
  const il::Array2DView<T> &c2() const { return w ? e2 : v2; }
  const il::Array2CView<T> &cc() const { return w ? ec : vc; }
  const il::Array3DView<T> &c3() const { return w ? e3 : v3; }
  int rank() const { return f == F1 ? 1 : f == F3 ? 3 : 2; }
  il::int_t size(long d) const { return f == F1 ? c1().size() : f == F2D ? c2().size(d) : f == F2C ? cc().size(d) : c3().size(d); }
  const T &at(const L &i) const {
    const T &x = f == F1 ? c1()[i[0]] : f == F2D ? c2()(i[0], i[1]) : f == F2C ? cc()(i[0], i[1]) : c3()(i[0], i[1], i[2]);
    if (w && &x != &const_cast<V<T> *>(this)->At(i)) return *static_cast<const T *>(nullptr);
    return x;
  }
  T &At(const L &i) { return f == F1 ? e1[i[0]] : f == F2D ? e2(i[0], i[1]) : f == F2C ? ec(i[0], i[1]) : e3(i[0], i[1], i[2]); }
  const T *byPointer(const L &i) const {
    if (f == F1) return (w ? const_cast<V<T> *>(this)->e1.Data() : c1().data()) + i[0];
    if (f == F2D) return (w ? const_cast<V<T> *>(this)->e2.Data() : c2().data()) + i[0] * c2().stride(0) + i[1] * c2().stride(1);
    if (f == F2C) return (w ? const_cast<V<T> *>(this)->ec.Data() : cc().data()) + i[0] * cc().stride(0) + i[1] * cc().stride(1);
    return c3().data() + i[0] + c3().stride(0) * (i[1] + c3().stride(1) * i[2]);
  }
  static il::Range R(const L &r, int d) { return il::Range{r[2 * d], r[2 * d + 1]}; }
  // a view of the view
  V<T> full(bool edit) {
    if (f == F1) { if (edit) return V<T>(e1.Edit()); return w ? V<T>(e1.view()) : V<T>(v1.view()); }
    if (edit) return f == F2D ? V<T>(il::Array2DEdit<T>(e2)) : f == F2C ? V<T>(il::Array2CEdit<T>(ec)) : V<T>(il::Array3DEdit<T>(e3));
    return f == F2D ? V<T>(il::Array2DView<T>(c2())) : f == F2C ? V<T>(il::Array2CView<T>(cc())) : V<T>(il::Array3DView<T>(c3()));
  }
  V<T> sub(bool edit, const L &r) {
    if (f == F1) { if (edit) return V<T>(e1.Edit(R(r, 0))); return w ? V<T>(e1.view(R(r, 0))) : V<T>(v1.view(R(r, 0))); }
    if (f == F2D) { if (edit) return V<T>(e2.Edit(R(r, 0), R(r, 1))); return V<T>(c2().view(R(r, 0), R(r, 1))); }
    if (f == F2C && edit) return V<T>(ec.Edit(R(r, 0), R(r, 1)));
    fprintf(stderr, "no such view\n"); exit(3);
  }
};
template <typename T> struct Cont {
  L n;
  virtual ~Cont() {}
  virtual T &At(const L &i) = 0;
  virtual const T &at(const L &i) { return At(i); }
  virtual V<T> full(bool edit) = 0;
  virtual V<T> sub(bool, const L &) { exit(3); }
  virtual V<T> line(bool, int, long, long, long) { exit(3); }
  virtual bool pad() { return true; }
};
template <typename T> static il::Range R(const L &r, int d) { return V<T>::R(r, d); }
template <typename T, typename A> struct One : Cont<T> {
  A a;
  T &At(const L &i) { return a[i[0]]; }
  const T &at(const L &i) { const A &c = a; return c[i[0]]; }
  V<T> full(bool edit) { const A &c = a; return edit ? V<T>(a.Edit()) : V<T>(c.view()); }
  V<T> sub(bool edit, const L &r) { const A &c = a; return edit ? V<T>(a.Edit(R<T>(r, 0))) : V<T>(c.view(R<T>(r, 0))); }
};
template <typename T> struct KArray : One<T, il::Array<T>> { KArray(const L &n, long s) { this->n = n; this->a.Reserve(n[0] + s); this->a.Resize(n[0]); } };
template <typename T> struct KSmall : One<T, il::SmallArray<T, 2>> { KSmall(const L &n, long s) { this->n = n; this->a.Reserve(n[0] + s); this->a.Resize(n[0]); } };
template <typename T, int k> struct KStatic : One<T, il::StaticArray<T, k>> { KStatic(const L &n) { this->n = n; } };
template <typename T> struct K2D : Cont<T> {
  il::Array2D<T> a;
  K2D(const L &n, long s) { this->n = n; a.Reserve(n[0] + s, n[1] + s); a.Resize(n[0], n[1]); }
  T &At(const L &i) { return a(i[0], i[1]); }
  const T &at(const L &i) { const il::Array2D<T> &c = a; return c(i[0], i[1]); }
  V<T> full(bool edit) { const il::Array2D<T> &c = a; return edit ? V<T>(a.Edit()) : V<T>(c.view()); }
  V<T> sub(bool edit, const L &r) { const il::Array2D<T> &c = a; return edit ? V<T>(a.Edit(R<T>(r, 0), R<T>(r, 1))) : V<T>(c.view(R<T>(r, 0), R<T>(r, 1))); }
  V<T> line(bool edit, int, long b, long e, long j) { const il::Array2D<T> &c = a; return edit ? V<T>(a.Edit(il::Range{b, e}, j)) : V<T>(c.view(il::Range{b, e}, j)); }
};
template <typename T> struct K2C : Cont<T> {
  il::Array2C<T> a;
  K2C(const L &n, long s) { this->n = n; a.Reserve(n[0] + s, n[1] + s); a.Resize(n[0], n[1]); }
  T &At(const L &i) { return a(i[0], i[1]); }
  const T &at(const L &i) { const il::Array2C<T> &c = a; return c(i[0], i[1]); }
  V<T> full(bool edit) { const il::Array2C<T> &c = a; return edit ? V<T>(a.Edit()) : V<T>(c.view()); }
  V<T> sub(bool, const L &r) { const il::Array2C<T> &c = a; return V<T>(c.view(R<T>(r, 0), R<T>(r, 1))); }
  V<T> line(bool, int, long b, long e, long j) { const il::Array2C<T> &c = a; return V<T>(c.view(j, il::Range{b, e})); }
};
template <typename T, int p, int q> struct KS2D : Cont<T> {
  il::StaticArray2D<T, p, q> a;
  KS2D(const L &n) { this->n = n; }
  T &At(const L &i) { return a(i[0], i[1]); }
  const T &at(const L &i) { const il::StaticArray2D<T, p, q> &c = a; return c(i[0], i[1]); }
  V<T> full(bool edit) { const il::StaticArray2D<T, p, q> &c = a; return edit ? V<T>(a.Edit()) : V<T>(c.view()); }
};
// memory which is not owned by a container: the views are built from pointers
template <typename T> struct Raw : Cont<T> {
  std::vector<T> m; L st; std::string k; long s0, s1;
  Raw(const std::string &kind, const L &n, long s) : k(kind) {
    this->n = n; st.assign(n.size(), 1); long total = 1; s0 = s1 = 0;
    if (k == "raw1") total = n[0];
    else if (k == "raw2d") { st[1] = n[0] + s; total = st[1] * n[1]; }
    else if (k == "raw2c") { st[0] = n[1] + s; total = st[0] * n[0]; }
    else { s0 = n[0] + s; s1 = n[1] + 2 * s; st[1] = s0; st[2] = s0 * s1; total = st[2] * n[2]; }
    for (long i = 0; i < total + 3; ++i) m.push_back(Elem<T>::make(111));
  }
  long off(const L &i) { long o = 1; for (size_t d = 0; d < i.size(); ++d) o += i[d] * st[d]; return o; }
  T &At(const L &i) {
#ifndef NDEBUG
    for (size_t d = 0; d < i.size(); ++d) IL_EXPECT_FAST(i[d] >= 0 && i[d] < this->n[d]);
#endif
    return m[off(i)];
  }
  V<T> full(bool edit) {
    T *p = m.data() + 1; const L &n = this->n;
    if (k == "raw1") return edit ? V<T>(il::ArrayEdit<T>{p, n[0]}) : V<T>(il::ArrayView<T>{p, n[0]});
    if (k == "raw2d") return edit ? V<T>(il::Array2DEdit<T>{p, n[0], n[1], st[1], 0, 0}) : n[0] % 2 ? V<T>(il::Array2DView<T>{p, n[0], n[1], st[1]}) : V<T>(il::Array2DView<T>{p, n[0], n[1], st[1], 0, 0});
    if (k == "raw2c") return edit ? n[0] % 2 ? V<T>(il::Array2CEdit<T>{p, n[0], n[1], st[0]}) : V<T>(il::Array2CEdit<T>{p, n[0], n[1], st[0], 0, 0}) : V<T>(il::Array2CView<T>{p, n[0], n[1], st[0]});
    return edit ? V<T>(il::Array3DEdit<T>{p, n[0], n[1], n[2], s0, s1}) : V<T>(il::Array3DView<T>{p, n[0], n[1], n[2], s0, s1});
  }
  bool pad() {
    std::set<long> in; long total = 1; for (size_t d = 0; d < this->n.size(); ++d) total *= this->n[d];
    for (long c = 0; c < total; ++c) { L i; long q = c; for (size_t d = 0; d < this->n.size(); ++d) { i.push_back(q % this->n[d]); q /= this->n[d]; } in.insert(off(i)); }
    for (size_t i = 0; i < m.size(); ++i) if (!in.count(static_cast<long>(i)) && Elem<T>::get(m[i]) != 111) return false;
    return true;
  }
};
static bool nextIx(const L &n, L &i) { for (size_t d = 0; d < n.size(); ++d) { if (++i[d] < n[d]) return true; i[d] = 0; } return false; }
template <typename T> static Cont<T> *build(const std::string &k, const L &n, long s) {
  if (k == "array") return new KArray<T>(n, s);
  if (k == "small") return new KSmall<T>(n, s);
  if (k == "static") { switch (n[0]) { case 1: return new KStatic<T, 1>(n); case 2: return new KStatic<T, 2>(n); case 3: return new KStatic<T, 3>(n); case 7: return new KStatic<T, 7>(n); } exit(3); }
  if (k == "a2d") return new K2D<T>(n, s);
  if (k == "a2c") return new K2C<T>(n, s);
  if (k == "s2d") { if (n[0] == 3 && n[1] == 2) return new KS2D<T, 3, 2>(n); if (n[0] == 2 && n[1] == 3) return new KS2D<T, 2, 3>(n); return new KS2D<T, 4, 5>(n); }
  return new Raw<T>(k, n, s);
}
template <typename T> static void scenario(const std::string &kind, long spare, Script &sc) {
  reg().reset(); g_blocks = 0;
  {
  std::unique_ptr<Cont<T>> c; std::vector<V<T>> v(4); std::map<const T *, long> where; L n; long total = 0;
  while (sc.next()) {
    const std::string op = sc.str();
    if (op == "E") break;
    bool ok = true; L r;
    Heap h;
    if (op == "new") {
      { NoHeap g; n = sc.list(); }
      c.reset(build<T>(kind, n, spare)); for (int s = 1; s < 4; ++s) v[s] = V<T>();
      NoHeap g; where.clear(); total = 1; for (size_t d = 0; d < n.size(); ++d) total *= n[d];
      if (total > 0) { L i(n.size(), 0); long k = 0; do { T &x = c->At(i); x = Elem<T>::make(++k); where[&x] = k; } while (nextIx(n, i)); }
    }
    else if (op == "full") { const long s = sc.num(), k = sc.num(); const bool w = sc.str() == "True"; ok = guarded([&] { v[s] = k == 0 ? c->full(w) : v[k].full(w); }); }
    else if (op == "sub") { const long s = sc.num(), k = sc.num(); const bool w = sc.str() == "True"; const L q = sc.list(); ok = guarded([&] { v[s] = k == 0 ? c->sub(w, q) : v[k].sub(w, q); }); }
    else if (op == "line") { const long s = sc.num(); sc.num(); const bool w = sc.str() == "True"; const long dim = sc.num(); const L q = sc.list(); const long j = sc.num(); ok = guarded([&] { v[s] = c->line(w, static_cast<int>(dim), q[0], q[1], j); }); }
    else if (op == "drop") v[sc.num()] = V<T>();
    else if (op == "get") { const long k = sc.num(); const L i = sc.list(); long x = 0; ok = guarded([&] { x = Elem<T>::get(k == 0 ? c->at(i) : v[k].at(i)); }); NoHeap g; if (ok) r.push_back(x); }
    else if (op == "put") { const long k = sc.num(); const L i = sc.list(); const long x = sc.num(); ok = guarded([&] { T &y = k == 0 ? c->At(i) : v[k].At(i); y = Elem<T>::make(x); }); }
    else if (op == "back") { const long k = sc.num(); long x = 0; ok = guarded([&] { V<T> z = k == 0 ? c->full(false) : v[k]; x = Elem<T>::get(z.c1().back()); }); NoHeap g; if (ok) r.push_back(x); }
    else if (op == "putback") { const long k = sc.num(), x = sc.num(); ok = guarded([&] { V<T> z = k == 0 ? c->full(true) : v[k]; z.e1.Back() = Elem<T>::make(x); }); }
    else if (op == "array") {
      const long k = sc.num();
      il::Array<T> a{v[k].c1()};
      for (il::int_t i = 0; i < a.size(); ++i) { const long x = Elem<T>::get(a[i]); { NoHeap g; r.push_back(x); } a[i] = Elem<T>::make(99); }
    }
    else if (op == "copy") { const long s = sc.num(), t = sc.num(); ok = guarded([&] { il::copy(v[s].c2(), il::io, v[t].e2); }); }
    else if (op == "dim") { const long k = sc.num(), d = sc.num(); long x = 0; ok = guarded([&] { x = v[k].size(d); }); NoHeap g; if (ok) r.push_back(x); }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
    NoHeap g;
    L cells; 
    if (total > 0) { L i(n.size(), 0); do { const T &x = c->at(i); cells.push_back(Elem<T>::get(x)); } while (nextIx(n, i)); }
    std::vector<std::string> obs;
    for (int s = 1; s < 4; ++s) {
      L ext, al, val; const V<T> &z = v[s];
      if (z.on) {
        long m = 1; for (int d = 0; d < z.rank(); ++d) { ext.push_back(z.size(d)); m *= z.size(d); }
        if (m > 0 && m <= 4 * total) { L i(ext.size(), 0); do {
          const T *x = &z.at(i); const bool known = where.count(x) && z.byPointer(i) == x;
          al.push_back(known ? where[x] : -1); val.push_back(known ? Elem<T>::get(*x) : -1);
        } while (nextIx(ext, i)); }
      }
      Json q; q.b("on", z.on).b("w", z.w).list("ext", ext).list("al", al).list("val", val); obs.push_back(q.end());
    }
    Json j; j.str("st", ok ? "ok" : "abort").list("got", r).list("cells", cells).b("pad", !c || c->pad()).rawlist("obs", obs).i("faults", reg().faults); j.emit();
  }
  Heap h; c.reset();
  }
  Json j; j.i("live", static_cast<long>(reg().alive.size())).i("faults", reg().faults).i("blocks", g_blocks); j.emit();
}
int main() {
  heap_init();
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    sc.str(); sc.str(); const std::string kind = sc.str(), elem = sc.str(); const long spare = sc.num();
    if (elem == "int") scenario<int>(kind, spare, sc);
    else if (elem == "double") scenario<double>(kind, spare, sc);
    else scenario<Tracked>(kind, spare, sc);
  }
  return 0;
}
