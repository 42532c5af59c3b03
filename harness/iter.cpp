// Iterative solvers.  Header: S I
#include <il/Gmres.h>
#include <il/Cg.h>
#include "vf.h"
#include <cmath>
#include <limits>
using namespace vf;
typedef std::vector<long> List;
typedef std::vector<double> Vec;
static const long none = 10007;
static const double nan_ = std::numeric_limits<double>::quiet_NaN();
static long whole(double x) {
  if (!std::isfinite(x) || std::fabs(x) > 2.0e9) return none;
  const double r = std::floor(x + 0.5);
  return std::fabs(x - r) <= 1.0e-6 * std::max(1.0, std::fabs(x)) ? static_cast<long>(r) : none;
}
// A matrix, or a diagonal in quarters.  Every element of y is written, after the whole of x is read.
struct Op : il::FunctorArray<double> {
  long n0 = 0, n1 = 0; std::vector<Vec> a; bool diagonal = false;
  il::int_t size(il::int_t d) const override { return d == 0 ? n0 : n1; }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    if (x.size() != n1 || y.size() != n0) { fprintf(stderr, "the operator is given vectors of other sizes\n"); _exit(4); }
    Vec r(n0, 0.0);
    for (long i = 0; i < n0; ++i) for (long j = 0; j < n1; ++j) r[i] += a[i][j] * x[j];
    for (long i = 0; i < n0; ++i) y[i] = r[i];
  }
};
static double norm(const Vec &v) { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }
struct Solver {
  Op A, P; bool cond = false; std::string kind;
  std::unique_ptr<il::Gmres<double>> g; std::unique_ptr<il::Cg<double>> c;
  Vec b; double last = 0;
};
static Vec residual(const Solver &s, const Vec &b, const Vec &x, double &scale) {
  Vec r(b); double m = norm(b);
  for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < x.size(); ++j) { r[i] -= s.A.a[i][j] * x[j]; m += std::fabs(s.A.a[i][j] * x[j]); }
  scale = m; return r;
}
static long angle(const Vec &u, const List &w) {
  double d = 0, n = 0; for (size_t i = 0; i < u.size() && i < w.size(); ++i) { d += u[i] * w[i]; n += double(w[i]) * w[i]; }
  const double m = std::sqrt(n);
  return m == 0 ? 0 : whole(std::floor(1.0e6 * d / m + 0.5));
}
static void act(Solver (&sol)[2], const std::string &call, Script &sc) {
  Json j; const long k = sc.num() - 1; Solver &s = sol[k];
  bool kept = true, rep = false, normsame = true, met = false, miss = false, mono = true, tiny = false, same = true; long it = 0; List hx, ortho;
  long den = 1; std::vector<List> ws, ps;
  auto wants = [&] { den = sc.num(); const long nw = sc.num(), np = sc.num(); for (long q = 0; q < nw; ++q) ws.push_back(sc.list()); for (long q = 0; q < np; ++q) ps.push_back(sc.list()); };
  auto look = [&](const Vec &b, const Vec &x, double reported) {
    double scale; const Vec r = residual(s, b, x, scale); const double m = norm(r), nb = norm(b);
    for (double v : x) hx.push_back(whole(den * v));
    Vec ru(r), xu(x); const double nx = norm(x);
    for (double &v : ru) v /= nb > 0 ? nb : 1; for (double &v : xu) v /= nx > 0 ? nx : 1;
    for (const List &w : ws) ortho.push_back(angle(ru, w));
    for (const List &p : ps) ortho.push_back(angle(xu, p));
    normsame = std::fabs(reported - m) <= 1.0e-9 * nb + 1.0e-13 * scale;
    tiny = m <= 1.0e-10 * nb + 1.0e-13 * scale;
    return m;
  };
  const bool ok = guarded([&] {
    if (call == "new") {
      const std::string kind = sc.str(); const long form = sc.num(), kd = sc.num(), n = sc.num();
      Op A, P; A.n0 = n; for (long i = 0; i < n; ++i) { const List l = sc.list(); A.a.push_back(Vec(l.begin(), l.end())); A.n1 = l.size(); }
      const List p = sc.list(); P.n0 = P.n1 = p.size();
      for (size_t i = 0; i < p.size(); ++i) { P.a.push_back(Vec(p.size(), 0.0)); P.a[i][i] = p[i] / 4.0; }
      // the operators live where the solver can keep their addresses
      static std::vector<std::unique_ptr<Op>> keep;
      keep.emplace_back(new Op(A)); Op &a = *keep.back(); keep.emplace_back(new Op(P)); Op &q = *keep.back();
      (void)form;
      if (kind == "gm") { std::unique_ptr<il::Gmres<double>> g(p.empty() ? new il::Gmres<double>{a, kd} : new il::Gmres<double>{a, q, kd}); s = Solver{}; s.g = std::move(g); }
      else { std::unique_ptr<il::Cg<double>> c(p.empty() ? new il::Cg<double>{a} : new il::Cg<double>{a, q}); s = Solver{}; s.c = std::move(c); }
      s.A = A; s.P = P; s.kind = kind;
    } else if (call == "par") {
      const long rel = sc.num(), abs = sc.num(), lim = sc.num();
      s.c->SetRelativePrecision(1.0 / rel); s.c->SetAbsolutionPrecision(abs); s.c->SetMaxNbIterations(lim);
      same = s.c->relativePrecision() == 1.0 / rel && s.c->absolutePrecision() == abs && s.c->maxNbIterations() == lim;
    } else if (call == "solve") {
      const List b = sc.list(); const long rel = sc.num(), abs = sc.num(), lim = sc.num(), nx = sc.num(); wants();
      il::Array<double> y{static_cast<il::int_t>(b.size())}; for (size_t i = 0; i < b.size(); ++i) y[i] = b[i];
      il::Status st{}; Vec x; double reported = 0;
      if (s.g) {
        // what is in x does not matter
        il::Array<double> o{nx, 0.0}; for (il::int_t i = 0; i < nx; ++i) o[i] = lim % 3 == 0 ? nan_ : 1.0 + 3 * i - lim;
        s.g->Solve(y.view(), 1.0 / rel, lim, il::io, o.Edit(), st);
        for (il::int_t i = 0; i < nx; ++i) x.push_back(o[i]);
        rep = st.Ok(); it = s.g->nbIterations(); reported = s.g->normResidual();
      } else {
        il::Array<double> o = s.c->Solve(y, il::io, st);
        for (il::int_t i = 0; i < o.size(); ++i) x.push_back(o[i]);
        rep = st.Ok(); it = s.c->nbIterations(); reported = s.c->trueResidualNorm();
      }
      for (size_t i = 0; i < b.size(); ++i) if (y[i] != b[i]) kept = false;
      const Vec bd(b.begin(), b.end()); double scale; residual(s, bd, x, scale);
      const double m = look(bd, x, reported), t = norm(bd) / rel + (s.g ? 0.0 : abs);
      met = m <= t * (1 + 1.0e-6) + 1.0e-13 * scale; miss = m >= t * (1 - 1.0e-6) - 1.0e-13 * scale;
    } else if (call == "begin" || call == "next") {
      if (call == "begin") {
        const List b = sc.list(); s.b = Vec(b.begin(), b.end());
        il::Array<double> y{static_cast<il::int_t>(b.size())}; for (size_t i = 0; i < b.size(); ++i) y[i] = b[i];
        if (s.c) s.c->SetToSolve(y.view()); else if (b.size() % 2) s.g->SetToSolve(y); else s.g->SetToSolve(y.view());
        for (size_t i = 0; i < b.size(); ++i) if (y[i] != b[i]) kept = false;
        for (il::int_t i = 0; i < y.size(); ++i) y[i] = nan_;          // it is not needed afterwards
        s.last = norm(s.b);
      } else { wants(); if (s.c) s.c->Next(); else s.g->Next(); }
      it = s.c ? s.c->nbIterations() : s.g->nbIterations();
      Vec x; il::Array<double> o{static_cast<il::int_t>(s.b.size()), nan_};
      if (s.c) s.c->getSolution(il::io, o.Edit()); else if (it % 2) s.g->getSolution(il::io, o); else s.g->getSolution(il::io, o.Edit());
      for (il::int_t i = 0; i < o.size(); ++i) x.push_back(o[i]);
      const double m = look(s.b, x, s.c ? s.c->trueResidualNorm() : s.g->normResidual());
      mono = m <= s.last * (1 + 1.0e-9) + 1.0e-12 * norm(s.b); s.last = m;
    } else exit(3);
  });
  j.str("st", ok ? "ok" : "abort").b("kept", kept).b("rep", rep).b("normsame", normsame).b("met", met).b("miss", miss).b("mono", mono).b("tiny", tiny).b("same", same).i("it", it).list("hx", hx).list("ortho", ortho).emit();
}
int main() {
  Script sc;
  while (sc.next()) {
    const std::string head = sc.str();
    if (head == "Q") break;
    if (head != "S") return 3;
    Solver sol[2]; bool ended = false;
    while (!ended && sc.next()) {
      const std::string call = sc.str();
      if (call == "E") { Json().i("x", 0).emit(); ended = true; } else act(sol, call, sc);
    }
  }
  return 0;
}
