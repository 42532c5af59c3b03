// il/algorithmArray.h: one call per line.
// Header: S algo <mode>     Line: <op> <type> <variant> <lo> <hi> <x> <sample> <n> <v...>
// Elements: double, float: v/4; int: v; long: v * 2^33 (mean and variance: v).
#include "vf.h"
#include <cmath>
#include <pthread.h>
#include <il/core.h>
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/StaticArray.h>
#include <il/algorithmArray.h>
#include <il/algorithmArray2D.h>
using namespace vf;
struct Call { std::string op; long variant, lo, hi, x, sample; std::vector<long> v; };
struct Out { bool ok; std::vector<long> r, after; Out() : ok(true) {} };
static bool stats(const std::string &op) { return op == "mean" || op == "variance" || op == "meanvar"; }
template <typename T> static T enc(long v, bool) { return static_cast<T>(v) / 4; }
template <> int enc<int>(long v, bool) { return static_cast<int>(v); }
template <> long enc<long>(long v, bool st) { return st ? v : v * (1L << 33); }
template <typename T> static long dec(T v, bool) { const double d = static_cast<double>(v) * 4; return d == std::floor(d) && std::fabs(d) < 1e9 ? static_cast<long>(d) : 999999999; }
template <> long dec<int>(int v, bool) { return v; }
template <> long dec<long>(long v, bool st) { return st ? v : v % (1L << 33) == 0 ? v / (1L << 33) : 999999999; }
template <typename T> static bool whole() { return std::numeric_limits<T>::is_integer; }
static long clip(double d) { return d == d && std::fabs(d) < 2e9 ? std::lround(d) : 1999999999; }
template <typename T> static long meanOf(T m, long n) { return whole<T>() ? static_cast<long>(m) : clip(static_cast<double>(m) * 4 * n); }
template <typename T> static long varOf(T m, long n, long dof) { return whole<T>() ? static_cast<long>(m) : clip(static_cast<double>(m) * 16 * n * dof); }
template <typename T, int n> static void sortStatic(const Call &c, Out &o) {
  il::StaticArray<T, n> a;
  for (int i = 0; i < n; ++i) a[i] = enc<T>(c.v[i], false);
  il::sort(il::io, a);
  for (int i = 0; i < n; ++i) o.after.push_back(dec<T>(a[i], false));
}
template <typename T> static void run(const Call &c, Out &o) {
  const bool st = stats(c.op); const long n = static_cast<long>(c.v.size());
  if (c.op == "sort" && c.variant == 1) {
    switch (n) { case 1: sortStatic<T, 1>(c, o); return; case 2: sortStatic<T, 2>(c, o); return; case 3: sortStatic<T, 3>(c, o); return; case 5: sortStatic<T, 5>(c, o); return;
      case 8: sortStatic<T, 8>(c, o); return; case 17: sortStatic<T, 17>(c, o); return; case 40: sortStatic<T, 40>(c, o); return; }
    fprintf(stderr, "static size\n"); exit(3);
  }
  Heap h;
  {
  il::Array<T> a; { a.Reserve(n + c.x % 2); for (long i = 0; i < n; ++i) a.Append(enc<T>(c.v[i], st)); }
  const il::Array<T> &ca = a;
  const il::Range range{c.lo, c.hi};
  const bool full = c.variant == 0;
  const il::VarianceKind kind = c.sample ? il::VarianceKind::Sample : il::VarianceKind::Population;
  o.ok = guarded([&] {
    if (c.op == "min") { const T r = full ? il::min(ca) : il::min(ca, range); NoHeap g; o.r.push_back(dec<T>(r, st)); }
    else if (c.op == "max") { const T r = full ? il::max(ca) : il::max(ca, range); NoHeap g; o.r.push_back(dec<T>(r, st)); }
    else if (c.op == "maxabs") { const T r = full ? il::maxAbs(ca) : il::maxAbs(ca, range); NoHeap g; o.r.push_back(dec<T>(r, st)); }
    else if (c.op == "imin") { const il::int_t r = full ? il::indexMin(ca) : il::indexMin(ca, range); NoHeap g; o.r.push_back(r); }
    else if (c.op == "imax") { const il::int_t r = full ? il::indexMax(ca) : il::indexMax(ca, range); NoHeap g; o.r.push_back(r); }
    else if (c.op == "imaxabs") { const il::int_t r = full ? il::indexMaxAbs(ca) : il::indexMaxAbs(ca, range); NoHeap g; o.r.push_back(r); }
    else if (c.op == "minmax") { const il::MinMax<T> r = full ? il::minMax(ca) : il::minMax(ca, range); NoHeap g; o.r.push_back(dec<T>(r.min, st)); o.r.push_back(dec<T>(r.max, st)); }
    else if (c.op == "minmax2d") {
      // the array is a column of a wider one, the other columns hold larger and smaller numbers
      il::Array2D<T> A(n, 3);
      for (long i = 0; i < n; ++i) { A(i, 0) = enc<T>(-4000, st); A(i, 2) = enc<T>(4000, st); A(i, 1) = a[i]; }
      const il::MinMax<T> r = il::minMax(A, range, c.sample ? 3 : 1); NoHeap g; o.r.push_back(dec<T>(r.min, st)); o.r.push_back(dec<T>(r.max, st));
    }
    else if (c.op == "sort") il::sort(il::io, a);
    else if (c.op == "sorted") { const il::Array<T> r = c.variant == 0 ? il::sort(ca) : il::sort(a); NoHeap g; for (il::int_t i = 0; i < r.size(); ++i) o.r.push_back(dec<T>(r[i], st)); }
    else if (c.op == "bisect") { const T x = enc<T>(c.x, st); const il::int_t r = il::binarySearch(ca, x); NoHeap g; o.r.push_back(r); }
    else if (c.op == "mean") { const T m = il::mean(ca); NoHeap g; o.r.push_back(meanOf(m, n)); }
    else if (c.op == "variance") { const T m = il::variance(ca, kind); NoHeap g; o.r.push_back(varOf(m, n, n - c.sample)); }
    else if (c.op == "meanvar") { const il::MeanVariance<T> m = il::meanVariance(ca, kind); NoHeap g; o.r.push_back(meanOf(m.mean, n)); o.r.push_back(varOf(m.variance, n, n - c.sample)); }
    else { fprintf(stderr, "unknown op %s\n", c.op.c_str()); exit(3); }
  });
  { NoHeap g; for (il::int_t i = 0; i < a.size(); ++i) o.after.push_back(dec<T>(a[i], st)); }
  }
}
// a long array given as blocks of equal values, sorted by a thread with a small stack; the result is given as blocks as well
struct Deep { il::Array<long> a; bool ok; };
static void *deepRun(void *p) { Deep *d = static_cast<Deep *>(p); d->ok = guarded([&] { il::sort(il::io, d->a); }); return nullptr; }
static void deep(const std::vector<long> &b, Out &o) {
  Deep d; d.ok = false;
  for (std::size_t k = 0; k + 2 < b.size(); k += 3) for (long i = 0; i < b[k + 1]; ++i) d.a.Append(b[k] + b[k + 2] * i);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 96 * 1024);
  pthread_t th; if (pthread_create(&th, &at, deepRun, &d)) { fprintf(stderr, "thread\n"); exit(3); }
  pthread_join(th, nullptr); pthread_attr_destroy(&at);
  o.ok = d.ok;
  const long n = d.a.size(); long runs = 0;
  for (long i = 0; i < n;) { long k = i; while (k < n && d.a[k] == d.a[i]) ++k; if (runs++ < 3000) { o.r.push_back(d.a[i]); o.r.push_back(k - i); } i = k; }
}
int main() {
  heap_init();
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    while (sc.next()) {
      Call c; c.op = sc.str();
      if (c.op == "E") break;
      const std::string ty = sc.str();
      c.variant = sc.num(); c.lo = sc.num(); c.hi = sc.num(); c.x = sc.num(); c.sample = sc.num(); c.v = sc.list();
      Out o;
      if (c.op == "deep") deep(c.v, o);
      else if (ty == "double") run<double>(c, o); else if (ty == "float") run<float>(c, o);
      else if (ty == "int") run<int>(c, o); else run<long>(c, o);
      Json j; j.str("st", o.ok ? "ok" : "abort").list("r", o.r).list("after", o.after); j.emit();
    }
    Json j; j.i("live", 0).i("faults", 0).i("blocks", g_blocks); j.emit();
    g_blocks = 0;
  }
  return 0;
}
