// Sparse matrices.  Header: S <type> with type i8d, i4d, i4f (index and element type)
#include "vf.h"
#include <algorithm>
#include <cmath>
#include <type_traits>
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray.h>
#include <il/io/numpy/numpy.h>
#include <il/linearAlgebra/sparse/blas/SparseMatrixBlas.h>
#include <il/linearAlgebra/sparse/blas/sparseBlas.h>
#include <il/linearAlgebra/sparse/blas/sparseDot.h>
#include <il/linearAlgebra/sparse/factorization/GmresIlu0.h>
#include <il/linearAlgebra/sparse/factorization/Pardiso.h>
using namespace vf;
typedef std::vector<long> List;
static const long none = 10007;
static long whole(double x, double tol = 1.0e-6) {
  if (!std::isfinite(x) || std::fabs(x) > 2.0e6) return none;
  const double r = std::floor(x + 0.5);
  return std::fabs(x - r) <= tol * std::max(1.0, std::fabs(x)) ? static_cast<long>(r) : none;
}
template <typename V> il::Array<V> arr(const List &l) { il::Array<V> a{static_cast<il::int_t>(l.size())}; for (size_t i = 0; i < l.size(); ++i) a[i] = static_cast<V>(l[i]); return a; }
template <typename V> bool same(const il::Array<V> &a, const List &l) { if (a.size() != static_cast<il::int_t>(l.size())) return false; for (size_t i = 0; i < l.size(); ++i) if (a[i] != static_cast<V>(l[i])) return false; return true; }
template <typename V> List seen(const il::Array<V> &a, double D = 1, double tol = 1.0e-6) { List l; for (il::int_t i = 0; i < a.size(); ++i) l.push_back(whole(D * a[i], tol)); return l; }

// what exists for one index and element type only
template <typename I, typename T> struct Extra {
  typedef il::SparseMatrixCSR<I, T> M;
  static void mv(M &, long, long, const il::Array<T> &, long, il::Array<T> &) { exit(3); }
  static M dot(M &, M &) { exit(3); }
  static long norm(const M &, const std::string &, const il::Array<T> &, const il::Array<T> &, long) { exit(3); }
  void pardiso(const std::string &, M &, long, long, const List &, List &, bool &) { exit(3); }
  void gmres(const std::string &, M &, long, long, long, const List &, List &, bool &, long &) { exit(3); }
  static M npy(const M &, bool &) { exit(3); }
};
static il::Norm norm_(const std::string &k) { return k == "L1" ? il::Norm::L1 : k == "L2" ? il::Norm::L2 : il::Norm::Linf; }
template <> struct Extra<il::int_t, double> {
  typedef il::SparseMatrixCSR<il::int_t, double> M;
  std::unique_ptr<il::Pardiso> p; 
  Extra() : p(new il::Pardiso{}) {}
  static void mv(M &A, long, long alpha, const il::Array<double> &x, long beta, il::Array<double> &y) { const M &B = A; il::blas(static_cast<double>(alpha), B, x, static_cast<double>(beta), il::io, y); }
  static M dot(M &, M &) { exit(3); }
  static long norm(const M &A, const std::string &k, const il::Array<double> &beta, const il::Array<double> &alpha, long scl) { return whole(scl * il::norm(A, norm_(k), beta, alpha)); }
  void pardiso(const std::string &call, M &A, long form, long D, const List &b, List &x, bool &kept) {
    const M &B = A;
    if (call == "ana") p->SymbolicFactorization(B);
    else if (call == "num") p->NumericalFactorization(B);
    else { const il::Array<double> y = arr<double>(b); const il::Array<double> r = form ? p->SolveIterative(B, y) : p->Solve(B, y); x = seen(r, D, form ? 2.0e-3 : 1.0e-6); kept = same(y, b); }
  }
  void gmres(const std::string &, M &, long, long, long, const List &, List &, bool &, long &) { exit(3); }
  static M npy(const M &A, bool &ok) {
    il::Array<il::int_t> r{A.size(0) + 1}, c{A.nbNonZeros()}; il::Array<double> e{A.nbNonZeros()};
    for (il::int_t i = 0; i <= A.size(0); ++i) r[i] = A.row(i);
    for (il::int_t k = 0; k < A.nbNonZeros(); ++k) { c[k] = A.column(k); e[k] = A.element(k); }
    char d[] = "./vf_csr_XXXXXX"; if (!mkdtemp(d)) exit(3);
    const std::string f = std::string(d) + "/m";
    const il::String n{il::StringType::Ascii, f.c_str(), static_cast<il::int_t>(f.size())};
    il::Status s{}, t{}, u{}, v{};
    il::SaveHelper<il::Array<il::int_t>>::save(r, il::join(n, ".row"), il::io, s);
    il::SaveHelper<il::Array<il::int_t>>::save(c, il::join(n, ".column"), il::io, t);
    il::SaveHelper<il::Array<double>>::save(e, il::join(n, ".element"), il::io, u);
    ok = s.Ok(); ok = t.Ok() && ok; ok = u.Ok() && ok;
    M B = il::LoadHelper<M>::load(n, il::io, v);
    ok = v.Ok() && ok;
    for (const char *x : {".row", ".column", ".element"}) unlink((f + x).c_str());
    rmdir(d);
    return B;
  }
};
template <typename M, typename T> void by_handle(M &A, long form, T alpha, const il::Array<T> &x, T beta, il::Array<T> &y) {
  il::SparseMatrixBlas<int, T> h{il::io, A};
  if (form == 2) h.setNbMatrixVector(3);
  il::blas(alpha, h, x, beta, il::io, y);
}
template <> struct Extra<int, float> {
  typedef il::SparseMatrixCSR<int, float> M;
  static void mv(M &A, long form, long alpha, const il::Array<float> &x, long beta, il::Array<float> &y) { by_handle<M, float>(A, form, alpha, x, beta, y); }
  static M dot(M &, M &) { exit(3); }
  static long norm(const M &, const std::string &, const il::Array<float> &, const il::Array<float> &, long) { exit(3); }
  void pardiso(const std::string &, M &, long, long, const List &, List &, bool &) { exit(3); }
  void gmres(const std::string &, M &, long, long, long, const List &, List &, bool &, long &) { exit(3); }
  static M npy(const M &, bool &) { exit(3); }
};
template <> struct Extra<int, double> {
  typedef il::SparseMatrixCSR<int, double> M;
  il::GmresIlu0 g;
  static void mv(M &A, long form, long alpha, const il::Array<double> &x, long beta, il::Array<double> &y) {
    if (form) by_handle<M, double>(A, form, alpha, x, beta, y);
    else { const M &B = A; il::blas(static_cast<double>(alpha), B, x, static_cast<double>(beta), il::io, y); }
  }
  static M dot(M &A, M &B) { return il::dot(il::io, A, B); }
  static long norm(const M &A, const std::string &k, const il::Array<double> &beta, const il::Array<double> &alpha, long scl) { return whole(scl * il::norm(A, norm_(k), beta, alpha)); }
  void pardiso(const std::string &, M &, long, long, const List &, List &, bool &) { exit(3); }
  void gmres(const std::string &call, M &A, long form, long D, long most, const List &b, List &x, bool &kept, long &it) {
    if (call == "pre") {
      if (form == 1) { g = il::GmresIlu0{}; }
      else if (form == 2) { g = il::GmresIlu0{1.0e-11, 60, 7}; }
      g.computePreconditionner(il::io, A);
    } else {
      g.setRelativePrecision(1.0e-11); g.setMaxNbIteration(most); g.setRestartIteration(form ? form : 20);
      const il::Array<double> y = arr<double>(b);
      x = seen(g.solve(y, il::io, A), D); kept = same(y, b); it = g.nbIterations();
    }
  }
  static M npy(const M &, bool &) { exit(3); }
};

template <typename I, typename T> struct World {
  typedef il::SparseMatrixCSR<I, T> M;
  std::unique_ptr<M> m[3];
  Extra<I, T> x;
  World() { for (auto &p : m) p.reset(new M{}); }
  // every way to look at an element shows the same one
  std::string show(bool &same) {
    std::string s = "[";
    for (int q = 0; q < 3; ++q) {
      M &A = *m[q]; const M &C = A; Json j; List row, col, el;
      const long n0 = C.size(0), nnz = C.nbNonZeros();
      if (n0 > 0) for (long i = 0; i <= n0; ++i) { row.push_back(C.row(i)); if (C.rowData()[i] != C.row(i) || A.RowData() != C.rowData()) same = false; }
      for (long k = 0; k < nnz; ++k) {
        col.push_back(C.column(k)); el.push_back(whole(C[k]));
        if (C.columnData()[k] != C.column(k) || A.ColumnData() != C.columnData() || A.ElementData() != C.elementData() || &A[k] != &C[k] || C.elementData() + k != &C[k] || C.element(k) != C[k]) same = false;
      }
      for (long i = 0; i < n0; ++i) for (long k = 0; k < C.row(i + 1) - C.row(i); ++k) if (&A(i, k) != &C(i, k) || &C(i, k) != C.elementData() + C.row(i) + k) same = false;
      j.i("n0", n0).i("n1", C.size(1)).list("row", row).list("col", col).list("el", el);
      s += (q ? "," : "") + j.end();
    }
    return s + "]";
  }
  template <int n> static M small(long n0, long n1, const List &row, const List &col) {
    il::Array<il::SmallArray<I, n>> a{static_cast<il::int_t>(row.size()) - 1};
    for (size_t i = 0; i + 1 < row.size(); ++i) for (long k = row[i]; k < row[i + 1]; ++k) a[i].Append(static_cast<I>(col[k]));
    return M{n1, n0, a};
  }
  void op(const std::string &call, Script &sc) {
    Json j; bool same_ = true, kept = true, named = true; List index, out, xs; long val = none, it = 0;
    const long k = sc.num() - 1, jj = sc.num() - 1, l = sc.num() - 1, form = sc.num();
    const bool ok = guarded([&] {
      if (call == "make") {
        const long n0 = sc.num(), n1 = sc.num(); const List row = sc.list(), col = sc.list(), el = sc.list();
        if (form == 1) *m[k] = M{n0, n1, arr<I>(col), arr<I>(row), arr<T>(el)};
        else {
          std::unique_ptr<M> A(form == 2 ? new M(small<2>(n0, n1, row, col)) : form == 3 ? new M(small<5>(n0, n1, row, col)) : new M{n0, n1, arr<I>(col), arr<I>(row)});
          for (size_t q = 0; q < el.size(); ++q) if (form == 0) (*A)[q] = static_cast<T>(el[q]); else A->ElementData()[q] = static_cast<T>(el[q]);
          m[k] = std::move(A);
        }
      } else if (call == "pos") {
        const long n = sc.num(), np = sc.num(); il::Array<il::StaticArray<I, 2>> p{np}; List v; il::Array<I> ix{form ? 3 : 0};
        for (long q = 0; q < np; ++q) { p[q][0] = static_cast<I>(sc.num()); p[q][1] = static_cast<I>(sc.num()); v.push_back(sc.num()); }
        std::unique_ptr<M> A(new M{n, p, il::io, ix});
        index = seen(ix);
        for (long q = 0; q < np; ++q) (*A)[ix[q]] += static_cast<T>(v[q]);
        m[k] = std::move(A);
      } else if (call == "set") {
        const long i = sc.num(), p = sc.num(), v = sc.num(); M &A = *m[k];
        if (form == 0) A[p] = static_cast<T>(v); else if (form == 1) A(i, p) = static_cast<T>(v); else A.ElementData()[p] = static_cast<T>(v);
      } else if (call == "copy") {
        if (form == 0 && k != jj) { const M &B = *m[jj]; m[k].reset(new M(B)); } else { const M &B = *m[jj]; *m[k] = B; }
      } else if (call == "move") {
        if (form == 0 && k != jj) m[k].reset(new M(std::move(*m[jj]))); else *m[k] = std::move(*m[jj]);
      } else if (call == "mv") {
        const long alpha = sc.num(), beta = sc.num(); const List a = sc.list(), b = sc.list();
        const il::Array<T> u = arr<T>(a); il::Array<T> y = arr<T>(b);
        if (beta == 0) for (il::int_t q = 0; q < y.size(); ++q) y[q] = std::numeric_limits<T>::quiet_NaN();
        x.mv(*m[k], form, alpha, u, beta, y);
        out = seen(y); kept = same(u, a);
      } else if (call == "dot") {
        M C = x.dot(*m[k], *m[jj]); *m[l] = std::move(C);
      } else if (call == "norm") {
        const std::string kind = sc.str(); const long scl = sc.num(); const List a = sc.list(), b = sc.list(); const M &A = *m[k];
        val = x.norm(A, kind, arr<T>(b), arr<T>(a), scl);
      } else if (call == "ana" || call == "num" || call == "sol") {
        const long D = sc.num(); const List b = sc.list(); x.pardiso(call, *m[k], form, D, b, xs, kept);
      } else if (call == "pre" || call == "gm") {
        const long D = sc.num(), most = sc.num(); const List b = sc.list(); x.gmres(call, *m[k], form, D, most, b, xs, kept, it);
      } else if (call == "npy") { const M &A = *m[jj]; M B = x.npy(A, named); *m[k] = std::move(B); }
      else exit(3);
    });
    const std::string s = show(same_);
    j.str("st", !ok ? "abort" : named ? "ok" : "error").raw("m", s).b("same", same_).b("kept", kept).list("index", index).list("out", out).list("sol", xs).i("nrm", val).i("it", it).emit();
  }
};
template <typename I, typename T> bool session(Script &sc) {
  World<I, T> w;
  while (sc.next()) {
    const std::string call = sc.str();
    if (call == "E") { Json().i("x", 0).emit(); return true; }
    w.op(call, sc);
  }
  return false;
}
int main() {
  Script sc;
  while (sc.next()) {
    const std::string call = sc.str();
    if (call == "Q") break;
    if (call != "S") return 3;
    const std::string ty = sc.str();
    if (ty == "i8d") session<il::int_t, double>(sc); else if (ty == "i4d") session<int, double>(sc); else if (ty == "i4f") session<int, float>(sc); else return 3;
  }
  return 0;
}
