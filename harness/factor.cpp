// Factorisations, solvers and norms of dense matrices.  Header: S <mode>
#include "vf.h"
#include <algorithm>
#include <complex>
#include <cmath>
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/BandArray2C.h>
#include <il/LowerArray2D.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/Status.h>
#include <il/TriDiagonal.h>
#include <il/UpperArray2D.h>
#include <il/norm.h>
#include <il/linearAlgebra/dense/blas/solve.h>
#include <il/linearAlgebra/dense/factorization/Cholesky.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <il/linearAlgebra/dense/factorization/Householder.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/Singular.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
using namespace vf;
typedef std::complex<double> Z;
// the integer next to x, or a number that is none of the expected ones
static const long none = 10007;
static long whole(double x, double most = 2.0e6) {
  if (!std::isfinite(x) || std::fabs(x) > most) return none;
  const double r = std::floor(x + 0.5);
  return std::fabs(x - r) <= 1.0e-7 * std::max(1.0, std::fabs(x)) ? static_cast<long>(r) : none;
}
static void make(long re, long, double &x) { x = static_cast<double>(re); }
static void make(long re, long im, Z &x) { x = Z(static_cast<double>(re), static_cast<double>(im)); }
static Z cx(double x) { return Z(x, 0.0); }
static Z cx(const Z &x) { return x; }
typedef std::vector<long> List;
static void show(const Z &x, List &o, double most = 2.0e6) { o.push_back(whole(x.real(), most)); o.push_back(whole(x.imag(), most)); }
template <typename T> struct Win {
  char o; long off, n0, n1, s; std::vector<T> e, was;
  void read(Script &sc) {
    o = sc.str()[0]; off = sc.num(); n0 = sc.num(); n1 = sc.num(); s = sc.num();
    const List v = sc.list();
    for (size_t i = 0; i + 1 < v.size(); i += 2) { T x; make(v[i], v[i + 1], x); e.push_back(x); }
    was = e;
  }
  T *p() { return e.data() + off; }
  T &at(long i, long j) { return e[off + (o == 'D' ? j * s + i : i * s + j)]; }
  bool same() const { return e == was; }
  il::ArrayView<T> v() { return il::ArrayView<T>{p(), n0}; }
  il::ArrayEdit<T> ve() { return il::ArrayEdit<T>{p(), n0}; }
  il::Array2DView<T> d() { return il::Array2DView<T>{p(), n0, n1, s, 0, 0}; }
  il::Array2DEdit<T> de() { return il::Array2DEdit<T>{p(), n0, n1, s, 0, 0}; }
  // the elements of the window times D, the others as they are
  void flat(List &out, const Z &D) {
    std::vector<char> in(e.size(), 0);
    for (long i = 0; i < n0; ++i) for (long j = 0; j < n1; ++j) in[&at(i, j) - e.data()] = 1;
    for (size_t q = 0; q < e.size(); ++q) show(in[q] ? D * cx(e[q]) : cx(e[q]), out);
  }
  il::Array<T> arr() { il::Array<T> a{n0}; for (long i = 0; i < n0; ++i) a[i] = at(i, 0); if (s > n0) a.Reserve(s); return a; }
  il::Array2D<T> arrD() { il::Array2D<T> a{n0, n1}; if (s > n0) a.Reserve(s, n1 + 1); for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) a(i, j) = at(i, j); return a; }
  il::Array2C<T> arrC() { il::Array2C<T> a{n0, n1}; if (s > n1) a.Reserve(n0 + 1, s); for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) a(i, j) = at(i, j); return a; }
  template <typename M> bool holds(const M &m) { if (m.size(0) != n0 || m.size(1) != n1) return false; for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) if (m(i, j) != at(i, j)) return false; return true; }
  bool holdsV(const il::Array<T> &m) { if (m.size() != n0) return false; for (long i = 0; i < n0; ++i) if (m[i] != at(i, 0)) return false; return true; }
};
struct Op {
  std::string call; char opa, type, side; bool piv; long form, dre, dim, scl, np; std::string of, kind; long left, cond; List P, w;
  std::string st, pst; bool kept; List out, f, inv, xm, xv, qr, gram, c, sz; long det, c1, ci, val; bool tri, sorted;
  void read(Script &sc) {
    opa = sc.str()[0]; type = sc.str()[0]; side = sc.str()[0]; piv = sc.num(); form = sc.num(); dre = sc.num(); dim = sc.num(); scl = sc.num();
    np = sc.num(); of = sc.str(); kind = sc.str(); left = sc.num(); cond = sc.num(); P = sc.list(); w = sc.list();
    kept = true; tri = sorted = false; det = c1 = ci = val = none; st = "ok"; pst = "ok";
  }
};
template <typename M> void all(const M &m, const Z &D, List &o) { for (il::int_t j = 0; j < m.size(1); ++j) for (il::int_t i = 0; i < m.size(0); ++i) show(D * cx(m(i, j)), o); }
static std::string said(il::Status &s) {
  if (s.Ok()) return "ok";
  const il::Error e = s.error();
  return e == il::Error::MatrixSingular ? "singular" : e == il::Error::FloatingPointNegative || e == il::Error::FloatingPointNonPositive ? "negative" : "other";
}
static il::Norm norm_(const std::string &k) { return k == "L1" ? il::Norm::L1 : k == "L2" ? il::Norm::L2 : il::Norm::Linf; }
static il::Array<int> ints(const List &l) { il::Array<int> a{static_cast<il::int_t>(l.size())}; for (size_t i = 0; i < l.size(); ++i) a[i] = static_cast<int>(l[i]); return a; }
template <typename T> static void triangular(Op &o, Win<T> &A, Win<T> &C) {
  const il::MatrixType type = o.type == 'L' ? il::MatrixType::LowerUnit : il::MatrixType::UpperNonUnit;
  const il::Array<int> p = ints(o.P);
  const il::ArrayView<int> P = p.view();
  if (o.call == "swap") il::solve(P, il::io, C.de());
  else if (o.side == 'R') il::solveRight(A.d(), type, il::io, C.de());
  else if (o.piv) { if (o.form) il::solve(P, A.d(), type, il::io, C.ve()); else il::solve(P, A.d(), type, il::io, C.de()); }
  else if (o.opa == 'T') il::solve(A.d(), type, il::Dot::Transpose, il::io, C.de());
  else if (o.form) il::solve(A.d(), type, il::io, C.ve());
  else il::solve(A.d(), type, il::io, C.de());
}
template <typename T> static void lud(Op &o, Win<T> &A) {
  il::Array<int> p{o.np, -1};
  il::luDecomposition(il::io, p.Edit(), A.de());
  for (long i = 0; i < p.size(); ++i) o.P.push_back(p[i]);
  for (long j = 0; j < A.n1; ++j) for (long i = 0; i < A.n0; ++i) show(cx(A.at(i, j)) * static_cast<double>(o.scl), o.f, 5000);
}
static double conj_(double x) { return x; }
static Z conj_(const Z &x) { return std::conj(x); }
template <typename T> static void qr(Op &o, Win<T> &A) {
  il::Array<T> tau{o.np};
  il::qrDecomposition(il::io, tau.Edit(), A.de());
  const long m = A.n0, n = A.n1, k = std::min(m, n);
  std::vector<T> X(m * n, T(0));
  for (long j = 0; j < n; ++j) for (long i = 0; i <= std::min(j, m - 1); ++i) X[j * m + i] = A.at(i, j);
  for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) { T s(0); for (long q = 0; q < m; ++q) s += conj_(X[i * m + q]) * X[j * m + q]; show(cx(s), o.gram); }
  for (long q = k - 1; q >= 0; --q) for (long j = 0; j < n; ++j) {
    T s = X[j * m + q]; for (long i = q + 1; i < m; ++i) s += conj_(A.at(i, q)) * X[j * m + i];
    s *= tau[q]; X[j * m + q] -= s; for (long i = q + 1; i < m; ++i) X[j * m + i] -= A.at(i, q) * s;
  }
  for (const T &x : X) show(cx(x), o.qr);
}
static void coefs(Op &o, const std::vector<Z> &roots) {
  std::vector<Z> e(roots.size() + 1, Z(0)); e[0] = 1;
  for (size_t q = 0; q < roots.size(); ++q) for (size_t k = q + 1; k >= 1; --k) e[k] += roots[q] * e[k - 1];
  for (size_t k = 1; k < e.size(); ++k) o.c.push_back(std::fabs(e[k].imag()) > 1e-6 * std::max(1.0, std::abs(e[k])) ? none : whole(std::fabs(e[k].real()) < 1e-7 ? 0.0 : e[k].real(), 1e9));
}
template <typename T, il::int_t n> static il::StaticArray2D<T, n, n> sq(Win<T> &A) { il::StaticArray2D<T, n, n> a{}; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = A.at(i, j); return a; }
template <il::int_t n> static void singD(Op &, Win<double> &A) { il::Status s{}; il::Singular<il::StaticArray2D<double, n, n>> g{sq<double, n>(A), il::io, s}; s.IgnoreError(); }
template <il::int_t n> static void singD(Op &, Win<Z> &) {}
template <typename T, il::int_t n> static void statics(Op &o, Win<T> &A) {
  il::Status s{};
  if (o.call == "lus") {
    il::LU<il::StaticArray2D<T, n, n>> lu{sq<T, n>(A), il::io, s};
    o.st = said(s);
    if (o.st == "ok") all(lu.inverse(), Z(o.dre, o.dim), o.inv);
  } else {
    const il::StaticArray<double, n> v = il::singularValues<n>(sq<T, n>(A), il::io, s);
    o.st = said(s); std::vector<Z> r; o.sorted = true;
    for (int i = 0; i < n; ++i) { r.push_back(Z(v[i] * v[i])); if (v[i] < 0.0 || (i > 0 && v[i] > v[i - 1])) o.sorted = false; }
    coefs(o, r); singD<n>(o, A);
  }
}
template <typename T> static void anyStatic(Op &o, Win<T> &A) {
  switch (A.n0) { case 1: statics<T, 1>(o, A); break; case 2: statics<T, 2>(o, A); break; case 3: statics<T, 3>(o, A); break; case 4: statics<T, 4>(o, A); break; default: exit(3); }
}
static long estimate(double c, const Op &o) { const double x = std::floor(c * std::fabs(static_cast<double>(o.dre)) * (1.0 + 1e-9) + 0.5); return std::isfinite(x) && std::fabs(x) < 2.0e8 ? static_cast<long>(x) : none; }
static void lu(Op &o, Win<double> &A, Win<double> &B) {
  il::Status s{};
  const Z D(o.dre);
  il::Array2D<double> a = A.arrD(); const il::Array2D<double> kept = a; const il::Array2D<double> b = B.arrD();
  il::LU<il::Array2D<double>> f = o.form ? il::LU<il::Array2D<double>>{std::move(a), il::io, s} : il::LU<il::Array2D<double>>{a, il::io, s};
  o.st = said(s);
  if (o.form == 0) o.kept = A.holds(a);
  if (o.st != "ok") return;
  const long m = A.n0, n = A.n1;
  const il::LU<il::Array2D<double>> g = f;                       // copies are the same
  o.sz = {f.size(0), f.size(1)};
  for (long j = 0; j < n; ++j) for (long i = 0; i < m; ++i) show(cx(i > j ? g.L(i, j) : g.U(i, j)) * static_cast<double>(o.scl), o.f, 5000);
  if (m != n) return;
  o.det = whole(f.determinant());
  const il::LowerArray2D<double> L = f.L(); const il::UpperArray2D<double> U = f.U();
  o.tri = L.size() == n && U.size() == n;
  for (long i = 0; o.tri && i < n; ++i) for (long j = 0; j < n; ++j) if (i > j ? L(i, j) != f.L(i, j) : (U(i, j) != f.U(i, j) || (i == j && L(i, i) != 1.0))) o.tri = false;
  all(f.inverse(), D, o.inv);
  if (o.form) all(f.solve(B.arrD()), D, o.xm); else all(f.solve(b), D, o.xm);
  o.kept = o.kept && B.holds(b);
  Win<double> V = B; V.n1 = 1; const il::Array<double> v = V.arr();
  const il::Array<double> x = f.solve(v); o.kept = o.kept && V.holdsV(v);
  for (long i = 0; i < x.size(); ++i) show(D * x[i], o.xv);
  all(g.solve(b), D, o.qr); if (o.qr != o.xm) o.kept = false;    // a copy, and solving leaves it as it is
  if (o.cond) { o.c1 = estimate(f.conditionNumber(il::Norm::L1, il::norm(kept, il::Norm::L1)), o); o.ci = estimate(f.conditionNumber(il::Norm::Linf, il::norm(kept, il::Norm::Linf)), o); }
}
static void chol(Op &o, Win<double> &A, Win<double> &B) {
  il::Status s{}, t{};
  const Z D(o.dre);
  const il::Array2D<double> a = A.arrD();
  il::Cholesky<il::Array2D<double>> f = o.form ? il::Cholesky<il::Array2D<double>>{A.arrD(), il::io, s} : il::Cholesky<il::Array2D<double>>{a, il::io, s};
  o.st = said(s); o.kept = A.holds(a);
  il::LowerArray2D<double> l{A.n0};
  for (long j = 0; j < A.n0; ++j) for (long i = j; i < A.n0; ++i) l(i, j) = A.at(i, j);
  il::Cholesky<il::LowerArray2D<double>> g{l, il::io, t};
  o.pst = said(t);
  if (o.st != "ok") return;
  o.sz = {f.size(0), f.size(1)};
  all(f.inverse(), D, o.inv);
  const il::Array<double> v = B.arr();
  const il::Array<double> x = f.solve(v); o.kept = o.kept && B.holdsV(v);
  for (long i = 0; i < x.size(); ++i) show(D * x[i], o.xv);
  if (o.cond) { o.c1 = estimate(f.conditionNumber(il::Norm::L1, il::norm(a, il::Norm::L1)), o); o.ci = estimate(f.conditionNumber(il::Norm::Linf, il::norm(a, il::Norm::Linf)), o); }
}
static il::TriDiagonal<double> tri(Win<double> &A) { il::TriDiagonal<double> t{A.n0}; for (long i = 0; i < A.n0; ++i) for (int k = -1; k <= 1; ++k) t(i, k) = A.at(i, k + 1); return t; }
static void linsolve(Op &o, Win<double> &A, Win<double> &B) {
  il::Status s{};
  const Z D(o.dre); il::Array<double> x{}; const il::Array<double> y = B.arr();
  if (o.of == "full" && A.o == 'D') { if (o.form) { x = il::linearSolve(A.arrD(), y, il::io, s); o.st = said(s); } else { const il::Array2D<double> a = A.arrD(); x = il::linearSolve(a, y, il::io, s); o.st = said(s); o.kept = A.holds(a); } }
  else if (o.of == "full") { if (o.form) { x = il::linearSolve(A.arrC(), y, il::io, s); o.st = said(s); } else { const il::Array2C<double> a = A.arrC(); x = il::linearSolve(a, y, il::io, s); o.st = said(s); o.kept = A.holds(a); } }
  else if (o.of == "band") {
    const long n = A.n0, right = A.n1 - 1 - o.left;
    il::BandArray2C<double> a = o.form && o.left == right ? il::BandArray2C<double>{n, right} : il::BandArray2C<double>{n, n, o.left, right};
    for (long i = 0; i < n; ++i) for (long k = -o.left; k <= right; ++k) if (i + k >= 0 && i + k < n) a(i, k) = A.at(i, k + o.left);
    x = il::linearSolve(a, y, il::io, s); o.st = said(s);
    for (long i = 0; i < n; ++i) for (long k = -o.left; k <= right; ++k) if (i + k >= 0 && i + k < n && a(i, k) != A.at(i, k + o.left)) o.kept = false;
  } else {
    const il::TriDiagonal<double> t = tri(A);
    x = il::linearSolve(t, y, il::io, s); o.st = said(s);
    for (long i = 0; i < A.n0; ++i) for (int k = -1; k <= 1; ++k) if (t(i, k) != A.at(i, k + 1)) o.kept = false;
  }
  o.kept = o.kept && B.holdsV(y);
  if (o.st == "ok") for (long i = 0; i < x.size(); ++i) show(D * x[i], o.xv);
}
template <il::int_t n> static double snorm(Win<double> &A, il::Norm k) { il::StaticArray<double, n> v{}; for (int i = 0; i < n; ++i) v[i] = A.at(i, 0); return il::norm(v, k); }
static void norm(Op &o, Win<double> &A) {
  const il::Norm k = norm_(o.kind); double r = 0;
  if (o.of == "vec") {
    if (o.form == 1) r = A.n0 == 1 ? snorm<1>(A, k) : A.n0 == 2 ? snorm<2>(A, k) : A.n0 == 3 ? snorm<3>(A, k) : A.n0 == 4 ? snorm<4>(A, k) : snorm<7>(A, k);
    else {
      const il::Array<double> v = A.arr();
      if (o.form == 2) { il::Array<double> w{static_cast<il::int_t>(o.w.size())}; for (size_t i = 0; i < o.w.size(); ++i) w[i] = o.w[i]; r = il::norm(v, k, w); }
      else r = il::norm(v, k);
      o.kept = A.holdsV(v);
    }
    r *= o.scl; if (o.kind == "L2") r *= r;
  } else if (o.of == "mat") {
    if (o.form) { il::Array2D<int> a{A.n0, A.n1}; if (A.s > A.n0) a.Reserve(A.s, A.n1); for (long i = 0; i < A.n0; ++i) for (long j = 0; j < A.n1; ++j) a(i, j) = static_cast<int>(A.at(i, j)); r = il::norm(a, k); }
    else { const il::Array2D<double> a = A.arrD(); r = il::norm(a, k); o.kept = A.holds(a); }
  } else { const il::TriDiagonal<double> t = tri(A); r = il::norm(t, k); }
  o.val = whole(r);
}
static void eig(Op &o, Win<double> &A) {
  il::Status s{};
  const il::Array2D<double> a = A.arrD();
  il::Eigen<il::Array2D<double>> e = o.form ? il::Eigen<il::Array2D<double>>{A.arrD(), il::io, s} : il::Eigen<il::Array2D<double>>{a, il::io, s};
  o.st = said(s); o.kept = A.holds(a);
  if (o.st != "ok") return;
  const il::Array<Z> v = e.eigenValue(); std::vector<Z> r;
  for (long i = 0; i < v.size(); ++i) r.push_back(v[i]);
  coefs(o, r);
}
static void real(Op &o, Win<double> &A, Win<double> &B) {
  if (o.call == "lu") lu(o, A, B); else if (o.call == "chol") chol(o, A, B); else if (o.call == "linsolve") linsolve(o, A, B);
  else if (o.call == "norm") norm(o, A); else if (o.call == "eig") eig(o, A); else exit(3);
}
static void real(Op &, Win<Z> &, Win<Z> &) { exit(3); }
template <typename T> static void run(const std::string &call, Script &sc) {
  Op o; o.call = call; o.read(sc); Win<T> A, B, C; A.read(sc); B.read(sc); C.read(sc); Json j;
  const List given = o.P;
  const bool ok = guarded([&] {
    if (call == "swap" || call == "solve") { triangular(o, A, C); o.kept = A.same(); C.flat(o.out, Z(o.dre, o.dim)); }
    else if (call == "lud") { lud(o, A); A.flat(o.out, Z(1)); }
    else if (call == "qr") { if (o.form) { il::Householder<il::Array2D<double>> h{il::Array2D<double>{2, 2, 1.0}}; (void)h; } qr(o, A); A.flat(o.out, Z(1)); }
    else if (call == "lus" || call == "sing") anyStatic(o, A);
    else real(o, A, B);
  });
  if (o.P != given) j.list("P", o.P);
  j.str("st", ok ? o.st : "abort").str("pst", o.pst).b("kept", o.kept).b("tri", o.tri).b("sorted", o.sorted).list("out", o.out).list("f", o.f).list("inv", o.inv).list("xm", o.xm).list("xv", o.xv)
      .list("qr", o.qr).list("gram", o.gram).list("c", o.c).list("sz", o.sz).list("det", List{o.det, 0}).i("c1", o.c1).i("ci", o.ci).i("val", o.val).emit();
}
int main() {
  Script sc;
  while (sc.next()) {
    const std::string call = sc.str();
    if (call == "Q") break;
    if (call == "S") continue;
    if (call == "E") { Json().i("x", 0).emit(); continue; }
    const std::string ty = sc.str();
    if (ty == "f64") run<double>(call, sc); else if (ty == "c64") run<Z>(call, sc); else return 3;
  }
  return 0;
}
