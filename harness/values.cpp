// Every container and value type as a value: made, changed, copied, moved, swapped.
// Header: S <kind> <mode> <empty|moved>
#include "vf.h"
#include <algorithm>
#if GROUP == 1
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/Deque.h>
#include <il/Tree.h>
#include <il/String.h>
#include <il/UTF16String.h>
#elif GROUP == 2
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/String.h>
#include <il/LowerArray2D.h>
#include <il/UpperArray2D.h>
#include <il/TriDiagonal.h>
#include <il/BandArray2C.h>
#include <il/SparseMatrixCSR.h>
#elif GROUP == 3
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/String.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#else
#include <il/Dynamic.h>
#include <il/Info.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/Set.h>
#include <il/String.h>
#endif
using namespace vf;
static bool g_sane = true;
static void sane(bool b) { g_sane = g_sane && b; }

// elements
template <typename T> struct El { static T make(long k) { return static_cast<T>(k); } static std::string ser(const T &x) { return std::to_string(static_cast<long>(x)); } };
template <> struct El<Tracked> { static Tracked make(long k) { return Tracked(static_cast<int>(k)); } static std::string ser(const Tracked &x) { return std::to_string(x.value()); } };
#ifdef IL_STRING_H
template <> struct El<il::String> {
  static il::String make(long k) {
    std::string s = k % 3 == 0 ? "" : k % 3 == 1 ? "s" + std::to_string(k) : "a string that lives on the heap " + std::to_string(k);
    return il::String(il::StringType::Byte, s.c_str(), static_cast<il::int_t>(s.size()));
  }
  static std::string ser(const il::String &x) { sane(x.asCString()[x.size()] == 0); return "'" + std::string(x.asCString(), x.size()) + "'"; }
};
#endif
#ifdef IL_ARRAY_H
template <typename U> struct El<il::Array<U>> {
  static il::Array<U> make(long k) { il::Array<U> a; for (long i = 0; i < k % 4; ++i) a.Append(El<U>::make(k + i)); return a; }
  static std::string ser(const il::Array<U> &a) { std::string s = "["; for (il::int_t i = 0; i < a.size(); ++i) s += El<U>::ser(a[i]) + " "; return s + "]"; }
};
#endif

#if GROUP == 1
template <typename C, typename T> struct Seq {
  typedef C Type;
  static C *make(long c) {
    std::unique_ptr<C> a(new C{});
    const long n[] = {0, 1, 2, 3, 5, 17, 2, 40};
    if (c == 6) a->Reserve(12);
    for (long i = 0; i < n[c]; ++i) a->Append(El<T>::make(c * 3 + i));
    return a.release();
  }
  static void fill(C &a, il::int_t n, long v) { il::int_t m = a.size(); a.Resize(n); for (il::int_t i = m; i < n; ++i) a[i] = El<T>::make(v + i); }
  static void mut(C &a, long c) {
    const il::int_t n = a.size();
    switch (c) {
      case 0: if (n > 0) a[0] = El<T>::make(1); break;
      case 1: if (n > 0) a[n - 1] = El<T>::make(2); break;
      case 2: a.Append(El<T>::make(4)); break;
      case 3: fill(a, n / 2, 0); break;
      case 4: fill(a, n + 9, 5); break;
      case 5: a.Reserve(n + 7); break;
      case 6: fill(a, 0, 0); break;
      default: for (il::int_t i = 0; i < n; ++i) a[i] = El<T>::make(7 + i);
    }
  }
  static std::string ser(const C &a) {
    std::string s = std::to_string(a.size()) + ":";
    sane(a.capacity() >= a.size());
    for (il::int_t i = 0; i < a.size(); ++i) { s += El<T>::ser(a[i]) + " "; sane(&a[i] == a.data() + i); }
    return s;
  }
};
template <typename T> struct Deq {
  typedef il::Deque<T> C; typedef C Type;
  static C *make(long c) {
    const long cap[] = {0, 1, 2, 3, 3, 5, 4, 12}, f[] = {0, 1, 1, 2, 0, 3, 4, 4}, b[] = {0, 0, 1, 0, 2, 2, 0, 6};
    if (c == 0) return new C{};
    std::unique_ptr<C> a(new C(cap[c]));
    for (long i = 0; i < b[c]; ++i) a->PushBack(El<T>::make(c + i));
    for (long i = 0; i < f[c]; ++i) a->PushFront(El<T>::make(c * 3 + i));
    return a.release();
  }
  static void mut(C &a, long c) {
    const bool any = a.size() > 0, room = a.size() < a.capacity();
    switch (c) {
      case 0: if (any) a.Front() = El<T>::make(1); break;
      case 1: if (any) a.Back() = El<T>::make(2); break;
      case 2: case 7: if (room) a.PushBack(El<T>::make(4)); break;
      case 3: if (room) a.PushFront(El<T>::make(5)); break;
      case 4: if (any) a.PopFront(); break;
      case 5: if (any) a.PopBack(); break;
      default: if (a.capacity() == 0) { a.Reserve(3); a.PushBack(El<T>::make(9)); } else if (any && a.size() < a.capacity()) { a.PushBack(a.front()); a.PopFront(); }
    }
  }
  static std::string ser(const C &a) {
    std::string s = std::to_string(a.size()) + "/" + std::to_string(a.capacity()) + ":";
    C d(a);
    long k = 0;
    while (d.size() > 0 && k++ < 100) { s += El<T>::ser(d.front()) + " "; d.PopFront(); }
    return s;
  }
};
template <typename T, int N> struct Tre {
  typedef il::Tree<T, N> C; typedef C Type;
  static void build(C &a, il::spot_t s, long c, int d) {
    if (c & 1) a.Set(s, El<T>::make(c + d));
    if (d > 0) for (int i = 0; i < N; ++i) if ((c >> 1) % 3 != 1 || i % 2) { a.AddChild(s, i); build(a, a.child(s, i), c + i, d - 1); }
  }
  static C *make(long c) { std::unique_ptr<C> a(new C{}); if (c) build(*a, a->root(), c, c % 3); return a.release(); }
  static il::spot_t leaf(const C &a) { il::spot_t s = a.root(); for (int d = 0; d < 3; ++d) { bool go = false; for (int i = N - 1; i >= 0 && !go; --i) if (a.hasChild(s, i)) { s = a.child(s, i); go = true; } if (!go) break; } return s; }
  static void mut(C &a, long c) {
    il::spot_t s = c % 2 ? leaf(a) : a.root();
    if (c < 4) a.Set(s, El<T>::make(c + 10));
    else if (!a.hasChild(s, static_cast<int>(c) % N) && s.index < 30) a.AddChild(s, static_cast<int>(c) % N);
  }
  static void walk(const C &a, il::spot_t t, std::string &s, int d) {
    s += a.isEmpty(t) ? "-" : El<T>::ser(a.value(t));
    if (d > 6) return;
    s += "(";
    for (int i = 0; i < N; ++i) if (a.hasChild(t, i)) { s += std::to_string(i) + ":"; walk(a, a.child(t, i), s, d + 1); }
    s += ")";
  }
  static std::string ser(const C &a) { std::string s = std::to_string(a.depth()) + " "; walk(a, a.root(), s, 0); return s; }
};
struct Str {
  typedef il::String C; typedef C Type;
  static C *make(long c) {
    const long n[] = {0, 1, 5, 22, 23, 24, 60, 3};
    std::string s; for (long i = 0; i < n[c]; ++i) s += static_cast<char>('a' + (i + c) % 26);
    std::unique_ptr<C> a(new C(c % 2 ? il::StringType::Ascii : il::StringType::Utf8, s.c_str(), static_cast<il::int_t>(s.size())));
    if (c == 0) a.reset(new C{});
    if (c == 7) a->Reserve(50);
    return a.release();
  }
  static void mut(C &a, long c) {
    const C abc(il::StringType::Ascii, "abc", 3);
    switch (c) {
      case 0: a.Append('z'); break;
      case 1: a.Append(abc); break;
      case 2: a.Append(20, 'q'); break;
      case 3: a.Reserve(a.size() + 30); break;
      case 4: a.Clear(); break;
      case 5: a.Append(0x20ac); break;
      case 6: a.Insert(0, abc.view()); break;
      default: if (a.size() > 0) a.Insert(a.size(), abc.view()); break;
    }
  }
  static std::string ser(const C &a) {
    sane(a.capacity() >= a.size() && a.asCString()[a.size()] == 0 && a.isEmpty() == (a.size() == 0));
    return std::to_string(a.size()) + ":" + std::string(a.asCString(), a.size()) + "/" + std::to_string(static_cast<int>(a.type()));
  }
};
struct Utf16 {
  typedef il::UTF16String C; typedef C Type;
  static C *make(long c) {
    const long n[] = {0, 1, 5, 9, 10, 11, 12, 40};
    std::unique_ptr<C> a(new C{});
    for (long i = 0; i < n[c]; ++i) a->Append(static_cast<char>('a' + (i + c) % 26));
    if (c == 2) a->Reserve(50);
    return a.release();
  }
  static void mut(C &a, long c) {
    switch (c) {
      case 0: a.Append('z'); break;
      case 1: a.Append(0x1f600); break;
      case 2: a.Append(7, 'q'); break;
      case 3: a.Reserve(a.size() + 30); break;
      case 4: { const C b(a); a.Append(b); break; }
      case 5: if (a.size() < 60) a.Append(a); break;
      case 6: a.Append(3, 0x10000); break;
      default: a.Append(0x20ac);
    }
  }
  static std::string ser(const C &a) {
    sane(a.capacity() >= a.size());
    std::string s = std::to_string(a.size()) + ":";
    for (il::int_t i = 0; i < a.size(); ++i) s += std::to_string(a.data()[i]) + " ";
    sane(a.data()[a.size()] == 0);
    return s;
  }
};
#endif

#if GROUP == 2 || GROUP == 3
template <int R> struct Ix {};
template <> struct Ix<2> {
  template <class A> static auto at(A &a, const long *x) -> decltype(a(0, 0)) { return a(x[0], x[1]); }
  template <class A> static void resize(A &a, const long *n) { a.Resize(n[0], n[1]); }
  template <class A> static void reserve(A &a, const long *n) { a.Reserve(n[0], n[1]); }
  template <class A> static A *mk(const long *n) { return new A(n[0], n[1]); }
};
template <> struct Ix<3> {
  template <class A> static auto at(A &a, const long *x) -> decltype(a(0, 0, 0)) { return a(x[0], x[1], x[2]); }
  template <class A> static void resize(A &a, const long *n) { a.Resize(n[0], n[1], n[2]); }
  template <class A> static void reserve(A &a, const long *n) { a.Reserve(n[0], n[1], n[2]); }
  template <class A> static A *mk(const long *n) { return new A(n[0], n[1], n[2]); }
};
template <> struct Ix<4> {
  template <class A> static auto at(A &a, const long *x) -> decltype(a(0, 0, 0, 0)) { return a(x[0], x[1], x[2], x[3]); }
  template <class A> static void resize(A &a, const long *n) { a.Resize(n[0], n[1], n[2], n[3]); }
  template <class A> static void reserve(A &a, const long *n) { a.Reserve(n[0], n[1], n[2], n[3]); }
  template <class A> static A *mk(const long *n) { return new A(n[0], n[1], n[2], n[3]); }
};
template <int R, class F> void cells(const long *n, F f) {
  long x[4] = {0, 0, 0, 0};
  for (int d = 0; d < R; ++d) if (n[d] <= 0) return;
  while (true) {
    f(x);
    int d = R - 1;
    while (d >= 0 && ++x[d] == n[d]) { x[d] = 0; --d; }
    if (d < 0) return;
  }
}
// arrays of rank 2 to 4
template <typename C, typename T, int R, bool STATIC = false> struct Nd {
  typedef C Type;
  static void ext(const C &a, long *n) { for (int d = 0; d < R; ++d) n[d] = a.size(d); }
  static void refill(C &a, const long *old, long v) {
    long n[4]; ext(a, n);
    cells<R>(n, [&](const long *x) { bool in = true; long k = 0; for (int d = 0; d < R; ++d) { in = in && x[d] < old[d]; k = 5 * k + x[d]; } if (!in) Ix<R>::at(a, x) = El<T>::make(v + k); });
  }
  template <bool S = STATIC> static typename std::enable_if<S, C *>::type make(long c) { C *a = new C{}; const long z[4] = {0, 0, 0, 0}; refill(*a, z, 3 * c); return a; }
  template <bool S = STATIC> static typename std::enable_if<!S, C *>::type make(long c) {
    const long sh[8][4] = {{0, 0, 0, 0}, {1, 1, 1, 1}, {2, 3, 1, 2}, {3, 2, 2, 1}, {0, 2, 1, 1}, {2, 0, 2, 2}, {1, 4, 2, 3}, {3, 3, 2, 2}};
    const long z[4] = {0, 0, 0, 0};
    if (c == 0) return new C{};
    C *a = Ix<R>::template mk<C>(sh[c]);
    refill(*a, z, c);
    if (c == 3) { long r[4]; for (int d = 0; d < R; ++d) r[d] = sh[c][d] + d; Ix<R>::reserve(*a, r); }
    return a;
  }
  static void put(C &a, bool last, long v) {
    long n[4]; ext(a, n); long x[4] = {0, 0, 0, 0};
    for (int d = 0; d < R; ++d) { if (n[d] == 0) return; if (last) x[d] = n[d] - 1; }
    Ix<R>::at(a, x) = El<T>::make(v);
  }
  template <bool S = STATIC> static typename std::enable_if<S>::type mut(C &a, long c) { if (c < 2) put(a, c, c + 1); else { const long z[4] = {0, 0, 0, 0}; refill(a, z, 10 * c); } }
  template <bool S = STATIC> static typename std::enable_if<!S>::type mut(C &a, long c) {
    long old[4], n[4]; ext(a, old); ext(a, n);
    const long z[4] = {0, 0, 0, 0};
    switch (c) {
      case 0: put(a, false, 1); break;
      case 1: put(a, true, 2); break;
      case 2: n[0] = (n[0] + 1) % 5; Ix<R>::resize(a, n); refill(a, old, 4); break;
      case 3: n[0] /= 2; n[R - 1] = (n[R - 1] + 1) % 5; Ix<R>::resize(a, n); refill(a, old, 6); break;
      case 4: n[1] = (n[1] + 3) % 5; Ix<R>::resize(a, n); refill(a, old, 7); break;
      case 5: for (int d = 0; d < R; ++d) n[d] += d == 0 ? 2 : 1; Ix<R>::reserve(a, n); break;
      case 6: for (int d = 0; d < R; ++d) n[d] = 0; Ix<R>::resize(a, n); break;
      default: refill(a, z, 50);
    }
  }
  static std::string ser(const C &a) {
    long n[4]; ext(a, n); std::string s;
    for (int d = 0; d < R; ++d) s += std::to_string(n[d]) + (d + 1 < R ? "x" : ":");
    cells<R>(n, [&](const long *x) { s += El<T>::ser(Ix<R>::at(a, x)) + " "; });
    return s;
  }
};
#endif
#if GROUP == 3
template <typename T, int N> struct St1 {
  typedef il::StaticArray<T, N> C; typedef C Type;
  static C *make(long c) { C *a = new C{}; for (int i = 0; i < N; ++i) (*a)[i] = El<T>::make(c + i); return a; }
  static void mut(C &a, long c) { a[c % N] = El<T>::make(20 + c); }
  static std::string ser(const C &a) { std::string s; for (int i = 0; i < N; ++i) s += El<T>::ser(a[i]) + " "; return s; }
};
#endif
#if GROUP == 2
template <typename C, typename T, bool UP> struct Packed {
  typedef C Type;
  static const bool up = UP;
  static C *make(long c) {
    const long n[] = {0, 1, 2, 3, 4, 7, 5, 2};
    C *a = c == 0 ? new C{} : new C(n[c]);
    for (long i = 0; i < n[c]; ++i) for (long j = 0; j < n[c]; ++j) if (UP ? j >= i : j <= i) (*a)(i, j) = El<T>::make(3 * c + 10 * i + j);
    return a;
  }
  static void mut(C &a, long c) {
    const long n = a.size();
    if (n == 0) return;
    if (c < 2) { long i = c * (n - 1); a(i, i) = El<T>::make(90 + c); }
    else if (c < 4) { if (UP) a(0, n - 1) = El<T>::make(70 + c); else a(n - 1, 0) = El<T>::make(70 + c); }
    else for (long i = 0; i < n; ++i) a(i, i) = El<T>::make(c + i);
  }
  static std::string ser(const C &a) {
    const long n = a.size(); std::string s = std::to_string(n) + ":";
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (UP ? j >= i : j <= i) s += El<T>::ser(a(i, j)) + " ";
    return s;
  }
};
template <typename T> struct Tri {
  typedef il::TriDiagonal<T> C; typedef C Type;
  static C *make(long c) {
    const long n[] = {0, 1, 2, 3, 4, 7, 5, 2};
    C *a = new C(n[c]);
    for (long i = 0; i < n[c]; ++i) for (int k = -1; k <= 1; ++k) (*a)(i, k) = El<T>::make(3 * c + 10 * i + k);
    return a;
  }
  static void mut(C &a, long c) { const long n = a.size(); if (n) a((c * 3) % n, static_cast<int>(c % 3) - 1) = El<T>::make(80 + c); }
  static std::string ser(const C &a) { const long n = a.size(); std::string s = std::to_string(n) + ":"; for (long i = 0; i < n; ++i) for (int k = -1; k <= 1; ++k) s += El<T>::ser(a(i, k)) + " "; return s; }
};
struct Band {
  typedef il::BandArray2C<double> C; typedef C Type;
  static C *make(long c) {
    const long n[] = {0, 1, 2, 3, 4, 7, 5, 2}, l[] = {0, 0, 1, 1, 0, 2, 3, 1}, r[] = {0, 0, 1, 2, 1, 2, 1, 1};
    C *a = new C(n[c], n[c], l[c], r[c]);
    for (long i = 0; i < n[c]; ++i) for (long k = -l[c]; k <= r[c]; ++k) if (i + k >= 0 && i + k < n[c]) (*a)(i, k) = 3 * c + 10 * i + k;
    return a;
  }
  static void mut(C &a, long c) { const long n = a.size(0); if (n) a((c * 3) % n, 0) = 80 + c; }
  static std::string ser(const C &a) {
    const long n = a.size(0); std::string s = std::to_string(n) + "x" + std::to_string(a.size(1)) + "," + std::to_string(a.widthLeft()) + "," + std::to_string(a.widthRight()) + ":";
    for (long i = 0; i < n; ++i) for (long k = -a.widthLeft(); k <= a.widthRight(); ++k) if (i + k >= 0 && i + k < n) s += std::to_string(static_cast<long>(a(i, k))) + " ";
    return s;
  }
};
struct Csr {
  typedef il::SparseMatrixCSR<int, double> C; typedef C Type;
  static C *make(long c) {
    if (c == 0) return new C{};
    il::Array<int> col, row; il::Array<double> el;
    row.Append(0);
    const long n = 1 + c % 4, m = 2 + c % 3;
    for (long i = 0; i < n; ++i) { for (long j = 0; j < m; ++j) if ((i * 7 + j * 3 + c) % 3 == 0) { col.Append(static_cast<int>(j)); el.Append(c + 10. * i + j); } row.Append(static_cast<int>(col.size())); }
    return new C(n, m, col, row, el);
  }
  static void mut(C &a, long c) { const long n = a.nbNonZeros(); if (n) { if (c % 2) a[(c * 3) % n] = 80. + c; else a.ElementData()[n - 1] = 60. + c; } }
  static std::string ser(const C &a) {
    std::string s = std::to_string(a.size(0)) + "x" + std::to_string(a.size(1)) + "," + std::to_string(a.nbNonZeros()) + ":";
    for (long i = 0; i < a.size(0); ++i) { s += "|"; for (int k = a.row(i); k < a.row(i + 1); ++k) s += std::to_string(a.column(k)) + "=" + std::to_string(static_cast<long>(a.element(k))) + " "; }
    return s;
  }
};
#endif
#if GROUP == 4
template <typename T> struct Ky { static T make(long k) { return static_cast<T>(k); } static std::string ser(const T &x) { return std::to_string(x); } };
template <> struct Ky<il::String> { static il::String make(long k) { return El<il::String>::make(3 * k + 1 + (k % 2)); } static std::string ser(const il::String &x) { return El<il::String>::ser(x); } };
template <> struct El<il::Dynamic> {
  static il::Dynamic make(long k) {
    switch (k % 6) {
      case 0: return il::Dynamic{};
      case 1: return il::Dynamic{static_cast<il::int_t>(k)};
      case 2: return il::Dynamic{El<il::String>::make(k)};
      case 3: { il::Array<il::Dynamic> a; for (long i = 0; i < 3; ++i) a.Append(make(i)); return il::Dynamic{a}; }
      case 4: { il::Map<il::String, il::Dynamic> m; m.Set(Ky<il::String>::make(k), il::Dynamic{k * 1.5}); m.Set(Ky<il::String>::make(k + 1), make(2)); return il::Dynamic{m}; }
      default: { il::MapArray<il::String, il::Dynamic> m; m.Set(Ky<il::String>::make(k), make(k + 4)); return il::Dynamic{m}; }
    }
  }
  static std::string ser(const il::Dynamic &x);
};
template <typename C, typename F> std::vector<std::string> items(const C &a, F f) {
  std::vector<std::string> v;
  for (il::spot_t i = a.spotBegin(); i != a.spotEnd(); i = a.next(i)) { v.push_back(f(i)); if (v.size() > 200) { sane(false); break; } }
  return v;
}
static std::string join(std::vector<std::string> v, bool sort) { if (sort) std::sort(v.begin(), v.end()); std::string s = std::to_string(v.size()) + ":"; for (auto &x : v) s += x + " "; return s; }
template <typename C, typename K, typename V> std::string mapser(const C &a, bool sort) {
  std::vector<std::string> v = items(a, [&](il::spot_t i) {
    il::spot_t j = a.search(a.key(i)); sane(a.found(j) && j.index == i.index);
    return Ky<K>::ser(a.key(i)) + "=" + El<V>::ser(a.value(i)); });
  return join(v, sort);
}
std::string El<il::Dynamic>::ser(const il::Dynamic &x) {
  if (x.is<void>()) return "null";
  if (x.is<bool>()) return x.to<bool>() ? "true" : "false";
  if (x.is<il::int_t>()) return "i" + std::to_string(x.to<il::int_t>());
  if (x.is<double>()) return "d" + std::to_string(x.to<double>());
  if (x.is<il::String>()) return El<il::String>::ser(x.as<il::String>());
  if (x.is<il::Array<il::Dynamic>>()) { const il::Array<il::Dynamic> &a = x.as<il::Array<il::Dynamic>>(); std::string s = "["; for (il::int_t i = 0; i < a.size(); ++i) s += ser(a[i]) + ","; return s + "]"; }
  if (x.is<il::Map<il::String, il::Dynamic>>()) return "{" + mapser<il::Map<il::String, il::Dynamic>, il::String, il::Dynamic>(x.as<il::Map<il::String, il::Dynamic>>(), true) + "}";
  if (x.is<il::MapArray<il::String, il::Dynamic>>()) return "<" + mapser<il::MapArray<il::String, il::Dynamic>, il::String, il::Dynamic>(x.as<il::MapArray<il::String, il::Dynamic>>(), false) + ">";
  return "?";
}
template <typename K, typename V, bool ARR> struct Mp {
  typedef typename std::conditional<ARR, il::MapArray<K, V>, il::Map<K, V>>::type C; typedef C Type;
  static void wipe(il::Map<K, V> &a, bool all) { if (all) a.Clear(); else { il::spot_t i = a.search(Ky<K>::make(1)); if (a.found(i)) a.erase(i); } }
  static void wipe(il::MapArray<K, V> &, bool) {}
  static void reserve(il::Map<K, V> &a) { a.Reserve(40); }
  static void reserve(il::MapArray<K, V> &) {}
  static void put(C &a, long k, long v) { il::spot_t i = a.search(Ky<K>::make(k)); if (a.found(i)) a.Value(i) = El<V>::make(v); else a.Set(Ky<K>::make(k), El<V>::make(v)); }
  static C *make(long c) {
    const long n[] = {0, 1, 2, 3, 5, 17, 0, 30};
    C *a = c == 6 ? new C(10) : new C{};
    for (long i = 0; i < n[c]; ++i) a->Set(Ky<K>::make(i), El<V>::make(c + i));
    if (c == 5) { wipe(*a, false); }
    return a;
  }
  static void mut(C &a, long c) {
    switch (c) {
      case 0: put(a, 0, 7); break;
      case 1: put(a, 1, 8); break;
      case 2: for (long k = 0; k < 12; ++k) put(a, 100 + k, k); break;
      case 3: wipe(a, false); break;
      case 4: wipe(a, true); break;
      case 5: reserve(a); break;
      case 6: { il::spot_t i = a.spotBegin(); if (a.nbElements() == 1) a.Value(i) = El<V>::make(11); break; }
      default: put(a, 50, 9);
    }
  }
  static std::string ser(const C &a) {
    std::string s = mapser<C, K, V>(a, !ARR);
    for (long k = 0; k < 3; ++k) s += a.found(a.search(Ky<K>::make(k))) ? "+" : "-";
    return s + std::to_string(a.nbElements());
  }
};
template <typename K> struct Se {
  typedef il::Set<K> C; typedef C Type;
  static C *make(long c) { const long n[] = {0, 1, 2, 3, 5, 17, 0, 30}; C *a = new C{}; for (long i = 0; i < n[c]; ++i) a->Add(Ky<K>::make(c + i)); return a; }
  static void mut(C &a, long c) { if (c == 4) a.Clear(); else for (long k = 0; k < (c == 2 ? 12 : 1); ++k) a.Add(Ky<K>::make(10 * c + k)); }
  static std::string ser(const C &a) {
    std::vector<std::string> v = items(a, [&](il::spot_t i) { sane(a.contains(a.element(i))); return Ky<K>::ser(a.element(i)); });
    std::string s = join(v, true) + std::to_string(a.nbElements());
    for (long k = 0; k < 3; ++k) s += a.contains(Ky<K>::make(k)) ? "+" : "-";
    return s;
  }
};
struct Dyn {
  typedef il::Dynamic C; typedef C Type;
  static C *make(long c) { return new C(El<il::Dynamic>::make(c)); }
  static void mut(C &a, long c) {
    if (a.is<il::Array<il::Dynamic>>() && c > 1) { il::Array<il::Dynamic> &v = a.As<il::Array<il::Dynamic>>(); if (c % 2 && v.size() > 0) v[0] = El<il::Dynamic>::make(c); else v.Append(El<il::Dynamic>::make(c + 1)); }
    else if (a.is<il::Map<il::String, il::Dynamic>>() && c > 1) a.As<il::Map<il::String, il::Dynamic>>().Set(Ky<il::String>::make(c), il::Dynamic{static_cast<il::int_t>(c)});
    else if (a.is<il::MapArray<il::String, il::Dynamic>>() && c > 1) a.As<il::MapArray<il::String, il::Dynamic>>().Set(Ky<il::String>::make(c), il::Dynamic{true});
    else if (a.is<il::String>() && c > 1) a.As<il::String>().Append(20, 'y');
    else a = El<il::Dynamic>::make(c + 1);
  }
  static std::string ser(const C &a) { return El<il::Dynamic>::ser(a); }
};
struct Inf {
  typedef il::Info C; typedef C Type;
  static std::string key(long k) { return k % 3 == 0 ? "k" + std::to_string(k) : k % 3 == 1 ? "a key which is rather long " + std::to_string(k) : std::string("q"); }
  static void set(C &a, long k, long v) {
    std::string s = key(k);
    if (s == "k0") a.Set("k0", static_cast<int>(v));
    else if (s == "k3") a.Set("k3", v * 0.5);
    else if (s == "q") a.Set("q", v % 2 ? "short" : "a value which does not fit in the buffer");
    else a.Set("a key which is rather long 1", static_cast<int>(v));
  }
  static C *make(long c) { C *a = new C{}; const long n[] = {0, 1, 2, 3, 4, 2, 3, 4}; for (long i = 0; i < n[c]; ++i) set(*a, i, c + i); return a; }
  static void mut(C &a, long c) { if (c == 6) a.clear(); else set(a, c % 4, 30 + c); }
  static std::string ser(const C &a) {
    std::string s = a.isEmpty() ? "e" : "n";
    il::int_t i = a.search("k0"); s += a.found(i) ? " k0=" + std::to_string(a.toInteger(i)) : " -";
    i = a.search("k3"); s += a.found(i) ? " k3=" + std::to_string(a.toDouble(i)) : " -";
    i = a.search("q"); s += a.found(i) ? std::string(" q=") + a.asCString(i) : " -";
    i = a.search("a key which is rather long 1"); s += a.found(i) ? " l=" + std::to_string(a.toInteger(i)) : " -";
    return s;
  }
};
#endif

template <typename K> void drive(Script &sc) {
  typedef typename K::Type C;
  sc.str(); const bool left = sc.str() == "empty";
  std::unique_ptr<C> a[3];
  bool moved[3] = {false, false, false};
  reg().reset(); g_blocks = 0;
  while (sc.next()) {
    if (sc.line == "E") break;
    const std::string op = sc.str();
    const int s = static_cast<int>(sc.num()) - 1;
    g_sane = true;
    bool ok;
    if (op == "make") { long c = sc.num(); Heap h; ok = guarded([&] { a[s].reset(K::make(c)); }); moved[s] = false; }
    else if (op == "mut") { long c = sc.num(); Heap h; ok = guarded([&] { K::mut(*a[s], c); }); }
    else if (op == "destroy") { Heap h; ok = guarded([&] { a[s].reset(); }); moved[s] = false; }
    else {
      const int t = static_cast<int>(sc.num()) - 1;
      C *r = a[t].get();
      Heap h;
      if (op == "new_copy") ok = guarded([&] { const C &u = *r; a[s].reset(new C(u)); });
      else if (op == "new_move") ok = guarded([&] { a[s].reset(new C(std::move(*r))); });
      else if (op == "copy_assign") ok = guarded([&] { const C &u = *r; C &z = (*a[s] = u); if (&z != a[s].get()) g_sane = false; });
      else if (op == "move_assign") ok = guarded([&] { C &z = (*a[s] = std::move(*r)); if (&z != a[s].get()) g_sane = false; });
      else if (op == "swap") ok = guarded([&] { std::swap(*a[s], *r); });
      else exit(3);
      if (op == "copy_assign") moved[s] = false;
      if ((op == "new_move" || op == "move_assign") && s != t) { moved[s] = false; moved[t] = !left; }
    }
    std::vector<std::string> o;
    for (int k = 0; k < 3; ++k) {
      if (!a[k]) o.push_back("\"off\"");
      else if (moved[k]) o.push_back("\"moved\"");
      else {
        std::string x;
        if (!guarded([&] { x = K::ser(*a[k]); })) { x = "abort"; g_sane = false; }
        o.push_back(Json::q(x));
      }
    }
    Json j; j.str("st", ok ? "ok" : "abort").b("sane", g_sane).i("faults", reg().faults).rawlist("obs", o); j.emit();
  }
  { Heap h; for (int k = 0; k < 3; ++k) a[k].reset(); }
  Json j; j.i("live", static_cast<long>(reg().alive.size())).i("faults", reg().faults).i("blocks", g_blocks); j.emit();
}

int main() {
  heap_init();
  std::map<std::string, void (*)(Script &)> k;
#if GROUP == 1
  k["array_int"] = drive<Seq<il::Array<int>, int>>; k["array_double"] = drive<Seq<il::Array<double>, double>>;
  k["array_tracked"] = drive<Seq<il::Array<Tracked>, Tracked>>; k["array_string"] = drive<Seq<il::Array<il::String>, il::String>>;
  k["array_nested"] = drive<Seq<il::Array<il::Array<int>>, il::Array<int>>>;
  k["small1_int"] = drive<Seq<il::SmallArray<int, 1>, int>>; k["small2_int"] = drive<Seq<il::SmallArray<int, 2>, int>>;
  k["small3_tracked"] = drive<Seq<il::SmallArray<Tracked, 3>, Tracked>>; k["small2_string"] = drive<Seq<il::SmallArray<il::String, 2>, il::String>>;
  k["deque_int"] = drive<Deq<int>>; k["deque_tracked"] = drive<Deq<Tracked>>; k["deque_string"] = drive<Deq<il::String>>;
  k["tree2_int"] = drive<Tre<int, 2>>; k["tree3_tracked"] = drive<Tre<Tracked, 3>>; k["tree2_string"] = drive<Tre<il::String, 2>>;
  k["string"] = drive<Str>; k["utf16"] = drive<Utf16>;
#elif GROUP == 2
  k["array2d_int"] = drive<Nd<il::Array2D<int>, int, 2>>; k["array2d_tracked"] = drive<Nd<il::Array2D<Tracked>, Tracked, 2>>; k["array2d_string"] = drive<Nd<il::Array2D<il::String>, il::String, 2>>;
  k["array2c_double"] = drive<Nd<il::Array2C<double>, double, 2>>; k["array2c_tracked"] = drive<Nd<il::Array2C<Tracked>, Tracked, 2>>; k["array2c_string"] = drive<Nd<il::Array2C<il::String>, il::String, 2>>;
  k["lower_int"] = drive<Packed<il::LowerArray2D<int>, int, false>>; k["lower_tracked"] = drive<Packed<il::LowerArray2D<Tracked>, Tracked, false>>;
  k["upper_double"] = drive<Packed<il::UpperArray2D<double>, double, true>>; k["upper_tracked"] = drive<Packed<il::UpperArray2D<Tracked>, Tracked, true>>;
  k["tri_double"] = drive<Tri<double>>; k["tri_tracked"] = drive<Tri<Tracked>>;
  k["band"] = drive<Band>; k["csr"] = drive<Csr>;
#elif GROUP == 3
  k["array3d_int"] = drive<Nd<il::Array3D<int>, int, 3>>; k["array3d_tracked"] = drive<Nd<il::Array3D<Tracked>, Tracked, 3>>;
  k["array3c_double"] = drive<Nd<il::Array3C<double>, double, 3>>; k["array3c_tracked"] = drive<Nd<il::Array3C<Tracked>, Tracked, 3>>;
  k["array4d_int"] = drive<Nd<il::Array4D<int>, int, 4>>; k["array4d_tracked"] = drive<Nd<il::Array4D<Tracked>, Tracked, 4>>;
  k["array4c_double"] = drive<Nd<il::Array4C<double>, double, 4>>; k["array4c_tracked"] = drive<Nd<il::Array4C<Tracked>, Tracked, 4>>;
  k["static_int"] = drive<St1<int, 4>>; k["static_tracked"] = drive<St1<Tracked, 3>>; k["static_string"] = drive<St1<il::String, 3>>;
  k["static2d_int"] = drive<Nd<il::StaticArray2D<int, 3, 2>, int, 2, true>>; k["static2d_tracked"] = drive<Nd<il::StaticArray2D<Tracked, 2, 3>, Tracked, 2, true>>;
  k["static2c_double"] = drive<Nd<il::StaticArray2C<double, 3, 2>, double, 2, true>>; k["static2c_tracked"] = drive<Nd<il::StaticArray2C<Tracked, 2, 2>, Tracked, 2, true>>;
  k["static3d_int"] = drive<Nd<il::StaticArray3D<int, 2, 3, 2>, int, 3, true>>; k["static4d_double"] = drive<Nd<il::StaticArray4D<double, 2, 1, 3, 2>, double, 4, true>>;
#else
  k["map_int"] = drive<Mp<int, int, false>>; k["map_string"] = drive<Mp<il::String, il::String, false>>; k["map_tracked"] = drive<Mp<int, Tracked, false>>; k["map_dynamic"] = drive<Mp<il::String, il::Dynamic, false>>;
  k["marr_int"] = drive<Mp<int, int, true>>; k["marr_string"] = drive<Mp<il::String, il::String, true>>; k["marr_tracked"] = drive<Mp<int, Tracked, true>>; k["marr_dynamic"] = drive<Mp<il::String, il::Dynamic, true>>;
  k["set_int"] = drive<Se<int>>; k["set_string"] = drive<Se<il::String>>;
  k["dynamic"] = drive<Dyn>; k["info"] = drive<Inf>;
#endif
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") return 0;
    sc.str();
    const std::string kind = sc.str();
    if (!k.count(kind)) { fprintf(stderr, "unknown kind %s\n", kind.c_str()); return 3; }
    k[kind](sc);
  }
  return 0;
}
