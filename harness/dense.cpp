// Products of dense matrices and vectors.  Header: S <mode>
#include "vf.h"
#include <complex>
#include <cmath>
#include <limits>
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/blas.h>
#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/dense/blas/cross.h>
using namespace vf;
template <typename T> struct Num {
  static T make(long re, long) { return static_cast<T>(re); }
  static void show(const T &x, std::vector<long> &o) { o.push_back(whole(static_cast<double>(x))); o.push_back(0); }
  static T nan() { return std::numeric_limits<T>::quiet_NaN(); }
  static long whole(double x) { return std::isfinite(x) && std::floor(x) == x && std::fabs(x) < 1e9 ? static_cast<long>(x) : 777777777; }
};
template <typename R> struct Num<std::complex<R>> {
  typedef std::complex<R> T;
  static T make(long re, long im) { return T(static_cast<R>(re), static_cast<R>(im)); }
  static void show(const T &x, std::vector<long> &o) { o.push_back(Num<double>::whole(x.real())); o.push_back(Num<double>::whole(x.imag())); }
  static T nan() { return T(std::numeric_limits<R>::quiet_NaN(), std::numeric_limits<R>::quiet_NaN()); }
};
template <typename T> struct Win {   // a window of a buffer
  char o; long off, n0, n1, s; std::vector<T> e, was;
  void read(Script &sc) {
    o = sc.str()[0]; off = sc.num(); n0 = sc.num(); n1 = sc.num(); s = sc.num();
    const std::vector<long> v = sc.list();
    for (size_t i = 0; i + 1 < v.size(); i += 2) e.push_back(Num<T>::make(v[i], v[i + 1]));
    was = e;
  }
  T *p() { return e.data() + off; }
  T &at(long i, long j) { return e[off + (o == 'D' ? j * s + i : i * s + j)]; }
  bool same() const { return e.size() == 0 || memcmp(static_cast<const void *>(e.data()), static_cast<const void *>(was.data()), e.size() * sizeof(T)) == 0; }
  il::ArrayView<T> v() { return il::ArrayView<T>{p(), n0}; }
  il::ArrayEdit<T> ve() { return il::ArrayEdit<T>{p(), n0}; }
  il::Array2DView<T> d() { return il::Array2DView<T>{p(), n0, n1, s, 0, 0}; }
  il::Array2DEdit<T> de() { return il::Array2DEdit<T>{p(), n0, n1, s, 0, 0}; }
  il::Array2CView<T> c() { return il::Array2CView<T>{p(), n0, n1, s, 0, 0}; }
  il::Array2CEdit<T> ce() { return il::Array2CEdit<T>{p(), n0, n1, s, 0, 0}; }
  void flat(std::vector<long> &out) const { for (const T &x : e) Num<T>::show(x, out); }
};
static il::Dot dot_(char c) { return c == 'N' ? il::Dot::None : c == 'T' ? il::Dot::Transpose : il::Dot::Star; }
template <typename T> struct Call {
  std::string call; long form; char opa, opb; T alpha, beta; bool nan; std::vector<long> dims; Win<T> A, B, C;
  std::vector<long> out, sz;
  void one(const T &x) { sz = {1, 1}; Num<T>::show(x, out); }
  template <typename M> void mat(const M &m) {
    sz = {m.size(0), m.size(1)};
    for (il::int_t j = 0; j < m.size(1); ++j) for (il::int_t i = 0; i < m.size(0); ++i) Num<T>::show(m(i, j), out);
  }
  template <typename V> void vec(const V &m) { sz = {m.size(), 1}; for (il::int_t i = 0; i < m.size(); ++i) Num<T>::show(m[i], out); }
  // containers with room for more
  il::Array<T> arr(Win<T> &w) { il::Array<T> a{w.n0}; for (long i = 0; i < w.n0; ++i) a[i] = w.at(i, 0); if (w.s > w.n0) a.Reserve(w.s); return a; }
  il::Array2D<T> arrD(Win<T> &w) { il::Array2D<T> a{w.n0, w.n1}; if (w.s > w.n0) a.Reserve(w.s, w.n1 + 1); for (long j = 0; j < w.n1; ++j) for (long i = 0; i < w.n0; ++i) a(i, j) = w.at(i, j); return a; }
  il::Array2C<T> arrC(Win<T> &w) { il::Array2C<T> a{w.n0, w.n1}; if (w.s > w.n1) a.Reserve(w.n0 + 1, w.s); for (long j = 0; j < w.n1; ++j) for (long i = 0; i < w.n0; ++i) a(i, j) = w.at(i, j); return a; }
  static bool isNan(const T &x) { return x != x; }
  void blas() {
    const il::Dot a = dot_(opa), b = dot_(opb);
    if (nan) for (long i = 0; i < C.n0; ++i) for (long j = 0; j < C.n1; ++j) C.at(i, j) = Num<T>::nan();
    if (call == "axpy") il::blas(alpha, A.v(), il::io, C.ve());
    else if (call == "axpby") il::blas(alpha, A.v(), beta, il::io, C.ve());
    else if (call == "gemv") {
      if (A.o == 'D') { if (form) il::blas(alpha, A.d(), B.v(), beta, il::io, C.ve()); else il::blas(alpha, A.d(), a, B.v(), beta, il::io, C.ve()); }
      else { if (form) il::blas(alpha, A.c(), B.v(), beta, il::io, C.ve()); else il::blas(alpha, A.c(), a, B.v(), beta, il::io, C.ve()); }
    } else if (A.o == 'D') {
      if (form == 0) il::blas(alpha, A.d(), a, B.d(), b, beta, il::io, C.de());
      else if (form == 1) il::blas(alpha, A.d(), B.d(), beta, il::io, C.de());
      else if (form == 2) il::blas(alpha, A.d(), a, B.d(), beta, il::io, C.de());
      else il::blas(alpha, A.d(), B.d(), b, beta, il::io, C.de());
    } else {
      if (form == 0) il::blas(alpha, A.c(), a, B.c(), b, beta, il::io, C.ce());
      else if (form == 1) il::blas(alpha, A.c(), B.c(), beta, il::io, C.ce());
      else if (form == 2) il::blas(alpha, A.c(), a, B.c(), beta, il::io, C.ce());
      else il::blas(alpha, A.c(), B.c(), b, beta, il::io, C.ce());
    }
  }
  void after() { C.flat(out); }
};
template <typename R> static void scalar(Call<R> &c) {
  if (c.call == "vdot") c.one(il::dot(c.A.v(), c.B.v())); else c.one(il::dot(c.arr(c.A), c.arr(c.B)));
}
template <typename R> static void scalar(Call<std::complex<R>> &c) {
  if (c.call == "vdot") {
    if (c.form == 1) c.one(il::dot(c.A.v(), c.B.v()));
    else if (c.form == 2) c.one(il::dot(c.A.v(), dot_(c.opa), c.B.v()));
    else c.one(il::dot(c.A.v(), c.B.v(), dot_(c.opb)));
  } else {
    if (c.form == 1) c.one(il::dot(c.arr(c.A), c.arr(c.B)));
    else if (c.form == 2) c.one(il::dot(c.arr(c.A), dot_(c.opa), c.arr(c.B)));
    else c.one(il::dot(c.arr(c.A), c.arr(c.B), dot_(c.opb)));
  }
}
template <typename T> static void more(Call<T> &) { exit(3); }
static void more(Call<float> &c) { if (c.call == "cmm" && c.A.o == 'D') c.mat(il::dot(c.arrD(c.A), c.arrD(c.B))); else exit(3); }
static void more(Call<double> &c) {
  if (c.call == "cmm") { if (c.A.o == 'D') c.mat(il::dot(c.arrD(c.A), c.arrD(c.B))); else c.mat(il::dot(c.arrC(c.A), c.arrC(c.B))); }
  else if (c.call == "cmv") { if (c.A.o == 'D') c.vec(il::dot(c.arrD(c.A), c.arr(c.B))); else c.vec(il::dot(c.arrC(c.A), c.arr(c.B))); }
  else if (c.call == "madd") { il::blas(c.alpha, c.A.d(), c.beta, il::io, c.C.de()); c.after(); }
  else exit(3);
}
static void more(Call<std::complex<double>> &c) {
  if (c.call == "madd") { il::blas(c.alpha, c.A.d(), c.beta, il::io, c.C.de()); c.after(); } else exit(3);
}
// ------------------------------------------------------------- static arrays
template <typename T, il::int_t a> il::StaticArray<T, a> s1(Win<T> &w) { il::StaticArray<T, a> r{}; for (int i = 0; i < a; ++i) r[i] = w.e[i]; return r; }
template <typename T, il::int_t a, il::int_t b> il::StaticArray2D<T, a, b> s2(Win<T> &w) { il::StaticArray2D<T, a, b> r{}; long p = 0; for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) r(i, j) = w.e[p++]; return r; }
template <typename T, il::int_t a, il::int_t b, il::int_t c> il::StaticArray3D<T, a, b, c> s3(Win<T> &w) { il::StaticArray3D<T, a, b, c> r{}; long p = 0; for (int k = 0; k < c; ++k) for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) r(i, j, k) = w.e[p++]; return r; }
template <typename T, il::int_t a, il::int_t b, il::int_t c, il::int_t d> il::StaticArray4D<T, a, b, c, d> s4(Win<T> &w) { il::StaticArray4D<T, a, b, c, d> r{}; long p = 0; for (int l = 0; l < d; ++l) for (int k = 0; k < c; ++k) for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) r(i, j, k, l) = w.e[p++]; return r; }
template <typename T, il::int_t a> void t(Win<T> &w, const il::StaticArray<T, a> &r) { for (int i = 0; i < a; ++i) w.e[i] = r[i]; }
template <typename T, il::int_t a, il::int_t b> void t(Win<T> &w, const il::StaticArray2D<T, a, b> &r) { long p = 0; for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) w.e[p++] = r(i, j); }
template <typename T, il::int_t a, il::int_t b, il::int_t c> void t(Win<T> &w, const il::StaticArray3D<T, a, b, c> &r) { long p = 0; for (int k = 0; k < c; ++k) for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) w.e[p++] = r(i, j, k); }
template <typename T> void give(Call<T> &c, const Win<T> &w, long n0, long n1) { c.sz = {n0, n1}; w.flat(c.out); }
template <typename T> double real_(const T &x) { return static_cast<double>(x); }
template <typename R> double real_(const std::complex<R> &x) { return static_cast<double>(x.real()); }
// sizes: n0 rows, n common, n1 and n2 others
template <typename T, int n0, int n, int n1, int n2> static void stat(Call<T> &c) {
  const std::string &k = c.call; Win<T> w; w.e.resize(n0 * n1 * n2 + n0 * n1 + n1 + n0, T{}); const double al = real_(c.alpha), be = real_(c.beta);
  auto cut = [&](long m) { w.e.resize(m); };
  if (k == "svd") c.one(il::dot(s1<T, n>(c.A), s1<T, n>(c.B)));
  else if (k == "smv") { cut(n0); t(w, il::dot(s2<T, n0, n>(c.A), s1<T, n>(c.B))); give(c, w, n0, 1); }
  else if (k == "smvT") { cut(n0); t(w, il::dot(s2<T, n, n0>(c.A), il::Dot::Transpose, s1<T, n>(c.B))); give(c, w, n0, 1); }
  else if (k == "svm") { cut(n1); t(w, il::dot(s1<T, n>(c.A), s2<T, n, n1>(c.B))); give(c, w, 1, n1); }
  else if (k == "smm") { cut(n0 * n1); t(w, il::dot(s2<T, n0, n>(c.A), s2<T, n, n1>(c.B))); give(c, w, n0, n1); }
  else if (k == "smmT") { cut(n0 * n1); t(w, il::dot(s2<T, n, n0>(c.A), il::Dot::Transpose, s2<T, n, n1>(c.B))); give(c, w, n0, n1); }
  else if (k == "sm3") { cut(n0 * n1 * n2); t(w, il::dot(s2<T, n0, n>(c.A), s3<T, n, n1, n2>(c.B))); give(c, w, n0, n1 * n2); }
  else if (k == "s3v") { cut(n0 * n1); t(w, il::dot(s3<T, n0, n1, n>(c.A), s1<T, n>(c.B))); give(c, w, n0 * n1, 1); }
  else if (k == "s4v") { cut(n0 * n1 * n2); t(w, il::dot(s4<T, n0, n1, n2, n>(c.A), s1<T, n>(c.B))); give(c, w, n0 * n1 * n2, 1); }
  else if (k == "sbmv") { auto y = s1<T, n0>(c.C); il::blas(al, s2<T, n0, n>(c.A), s1<T, n>(c.B), be, il::io, y); t(c.C, y); c.after(); }
  else if (k == "sb3v") { auto y = s2<T, n0, n1>(c.C); il::blas(al, s3<T, n0, n1, n>(c.A), s1<T, n>(c.B), be, il::io, y); t(c.C, y); c.after(); }
  else if (k == "sb4v") { auto y = s3<T, n0, n1, n2>(c.C); il::blas(al, s4<T, n0, n1, n2, n>(c.A), s1<T, n>(c.B), be, il::io, y); t(c.C, y); c.after(); }
  else if (k == "sb3a") { auto y = s3<T, n0, n1, n2>(c.C); il::blas(c.alpha, s3<T, n0, n1, n2>(c.A), c.beta, il::io, y); t(c.C, y); c.after(); }
  else exit(3);
}
template <typename T> static void statics(Call<T> &c) {
  if (c.call == "cross2") { auto r = il::cross(s1<T, 2>(c.A)); c.vec(r); return; }
  if (c.call == "cross3") { auto r = il::cross(s1<T, 3>(c.A), s1<T, 3>(c.B)); c.vec(r); return; }
  const long d = c.dims[0] * 1000 + c.dims[1] * 100 + c.dims[2] * 10 + c.dims[3];
  switch (d) {
    case 1111: stat<T, 1, 1, 1, 1>(c); break;
    case 2222: stat<T, 2, 2, 2, 2>(c); break;
    case 3333: stat<T, 3, 3, 3, 3>(c); break;
    case 2345: stat<T, 2, 3, 4, 5>(c); break;
    case 5432: stat<T, 5, 4, 3, 2>(c); break;
    case 3124: stat<T, 3, 1, 2, 4>(c); break;
    case 1423: stat<T, 1, 4, 2, 3>(c); break;
    case 4213: stat<T, 4, 2, 1, 3>(c); break;
    default: exit(3);
  }
}
static void statics(Call<std::complex<float>> &) { exit(3); }

template <typename T> static void read(Call<T> &c, Script &sc) {
  c.form = sc.num(); c.opa = sc.str()[0]; c.opb = sc.str()[0];
  long re = sc.num(), im = sc.num(); c.alpha = Num<T>::make(re, im);
  re = sc.num(); im = sc.num(); c.beta = Num<T>::make(re, im);
  c.nan = sc.num(); c.dims = sc.list(); c.A.read(sc); c.B.read(sc); c.C.read(sc);
}
template <typename T> static void tell(Call<T> &c, bool ok, Json &j) {
  j.str("st", ok ? "ok" : "abort").b("kept", c.A.same() && c.B.same()).list("out", c.out).list("sz", c.sz).emit();
}
template <typename T> static void run(const std::string &call, Script &sc) {
  Call<T> c; c.call = call; Json j; read(c, sc);
  const bool ok = guarded([&] {
    if (call == "gemm" || call == "gemv" || call == "axpy" || call == "axpby") { c.blas(); c.after(); }
    else if (call == "vdot" || call == "cvdot") scalar(c);
    else if (call[0] == 's' || call.compare(0, 5, "cross") == 0) statics(c);
    else more(c);
  });
  tell(c, ok, j);
}
static void runInt(const std::string &call, Script &sc) {
  Call<int> c; c.call = call; Json j; read(c, sc);
  const bool ok = guarded([&] { statics(c); });
  tell(c, ok, j);
}
int main() {
  Script sc;
  while (sc.next()) {
    const std::string call = sc.str();
    if (call == "Q") break;
    if (call == "S") continue;
    if (call == "E") { Json().i("x", 0).emit(); continue; }
    const std::string ty = sc.str();
    if (ty == "f32") run<float>(call, sc);
    else if (ty == "f64") run<double>(call, sc);
    else if (ty == "c32") run<std::complex<float>>(call, sc);
    else if (ty == "c64") run<std::complex<double>>(call, sc);
    else if (ty == "int") runInt(call, sc);
    else return 3;
  }
  return 0;
}
