// Low-discrepancy points.  Header: S <mode>
#include "vf.h"
#include <cmath>
#include <il/random/sobol.h>
using namespace vf;
static std::string rows(const il::Array2C<double> &A, double a, double b, long m) {
  std::string s = "[";
  for (il::int_t i = 0; i < A.size(0); ++i) {
    s += i ? ",[" : "[";
    for (il::int_t j = 0; j < A.size(1); ++j) {
      // one thousandth of a cell makes up for the rounding of a + (b - a) x
      const double x = std::floor(std::ldexp((A(i, j) - a) / (b - a), static_cast<int>(m)) + 1e-3);
      s += (j ? "," : "") + std::to_string(std::isfinite(x) && x > -1e6 && x < 1e6 ? static_cast<long>(x) : -1000000);
    }
    s += "]";
  }
  return s + "]";
}
int main() {
  Script sc;
  while (sc.next()) {
    const std::string op = sc.str();
    if (op == "Q") break;
    if (op == "S") continue;
    if (op == "E") { Json().emit(); continue; }
    const long n = sc.num(), dim = sc.num(), m = sc.num(); const double a = sc.num() * 0.25, b = sc.num() * 0.25;
    Json j; std::string st = "abort"; il::Array2C<double> A{};
    if (guarded([&] { A = il::sobol(n, dim, a, b); })) st = "ok";
    bool within = true;
    for (il::int_t i = 0; i < A.size(0); ++i) for (il::int_t k = 0; k < A.size(1); ++k) within = within && A(i, k) >= a && A(i, k) < b;
    j.str("st", st).i("rows", A.size(0)).i("cols", A.size(1)).b("within", within).raw("p", rows(A, a, b, m)).raw("fine", rows(A, a, b, 12)).emit();
  }
  return 0;
}
