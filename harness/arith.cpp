// il/core/math/safe_arithmetic.h and il/math.h: one call per line.
// Header: S arith <mode>     Line: <op> <type> <args...>
#include "vf.h"
#include <climits>
#include <limits>
#include <il/core.h>
#include <il/math.h>
#include <il/core/math/safe_arithmetic.h>
using namespace vf;
typedef unsigned __int128 u128;
template <typename T> static std::string num(T x) {
  const bool neg = x < 0; u128 m = neg ? u128(0) - static_cast<u128>(static_cast<__int128>(x)) : static_cast<u128>(x);
  std::vector<long> d; while (m) { d.push_back(static_cast<long>(m % 4096)); m /= 4096; }
  Json j; return j.i("s", d.empty() ? 0 : neg ? -1 : 1).list("m", d).end();
}
template <typename T> static T arg(Script &sc) {
  const std::string t = sc.str();
  return t[0] == '-' ? static_cast<T>(strtoll(t.c_str(), nullptr, 10)) : static_cast<T>(strtoull(t.c_str(), nullptr, 10));
}
struct Out { bool ok; bool err; std::string r; long n; Out() : ok(true), err(false), r("{\"s\":0,\"m\":[]}"), n(0) {} };
// the flag holds the opposite of what is expected before the call: a function that does not
// write it shows
#define CALL(expr) CALLT(T, expr)
#define CALLT(TT, expr) do { bool e1 = true, e2 = false; TT r1 = 0, r2 = 0; \
    o.ok = guarded([&] { bool &error = e1; r1 = (expr); }); if (o.ok) { bool &error = e2; r2 = (expr); if (e1 != e2 || (!e1 && r1 != r2)) { fprintf(stderr, "flag not written\n"); o.n = -77; } } \
    o.err = e1; if (o.ok && !e1) o.r = num<TT>(r1); if (o.n == -77) o.err = !(e2); if (o.n == -77) o.r = "{\"s\":1,\"m\":[0]}"; } while (0)
template <typename T> static bool common(const std::string &op, Script &sc, Out &o) {
  if (op == "sum") { const T a = arg<T>(sc), b = arg<T>(sc); CALL(il::safeSum(a, b, il::io, error)); return true; }
  if (op == "prod2") { const T a = arg<T>(sc), b = arg<T>(sc); CALL(il::safeProduct(a, b, il::io, error)); return true; }
  return false;
}
template <typename T, typename U> static void signedOps(const std::string &op, Script &sc, Out &o) {
  if (common<T>(op, sc, o)) return;
  if (op == "diff") { const T a = arg<T>(sc), b = arg<T>(sc); CALL(il::safeDifference(a, b, il::io, error)); return; }
  if (op == "div") { const T a = arg<T>(sc), b = arg<T>(sc); CALL(il::safeDivision(a, b, il::io, error)); return; }
  if (op == "upper") { const T a = arg<T>(sc), b = arg<T>(sc); CALL(il::safeUpperRound(a, b, il::io, error)); return; }
  if (op == "prods") {
    const long n = sc.num(); T v[4]; for (long i = 0; i < n; ++i) v[i] = arg<T>(sc);
    if (n == 3) CALL(il::safeProduct(v[0], v[1], v[2], il::io, error)); else CALL(il::safeProduct(v[0], v[1], v[2], v[3], il::io, error));
    return;
  }
  if (op == "conv") { const T a = arg<T>(sc); CALLT(U, il::safeConvert<U>(a, il::io, error)); return; }
  fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
}
template <typename T, typename U> static void unsignedOps(const std::string &op, Script &sc, Out &o) {
  if (common<T>(op, sc, o)) return;
  if (op == "conv") { const T a = arg<T>(sc); CALLT(U, il::safeConvert<U>(a, il::io, error)); return; }
  fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
}
template <typename T> static bool math(const std::string &op, Script &sc, Out &o) {
  if (op == "abs") { const T a = arg<T>(sc); o.r = num<T>(il::abs(a)); return true; }
  if (op == "ipow") { const T a = arg<T>(sc); const long n = sc.num(); o.r = num<T>(il::ipow(a, n)); return true; }
  return false;
}
// powers with a constant exponent
template <typename T> static bool mathN(const std::string &op, Script &sc, Out &o) {
  if (op != "ipow_n") return false;
  const T a = arg<T>(sc);
  switch (sc.num()) {
    case 0: o.r = num<T>(il::ipow<0, T>(a)); break;
    case 1: o.r = num<T>(il::ipow<1, T>(a)); break;
    case 2: o.r = num<T>(il::ipow<2, T>(a)); break;
    case 3: o.r = num<T>(il::ipow<3, T>(a)); break;
    case 4: o.r = num<T>(il::ipow<4, T>(a)); break;
    case 5: o.r = num<T>(il::ipow<5, T>(a)); break;
    case 6: o.r = num<T>(il::ipow<6, T>(a)); break;
    case 7: o.r = num<T>(il::ipow<7, T>(a)); break;
    case 9: o.r = num<T>(il::ipow<9, T>(a)); break;
    case 11: o.r = num<T>(il::ipow<11, T>(a)); break;
    case 13: o.r = num<T>(il::ipow<13, T>(a)); break;
    default: exit(3);
  }
  return true;
}
// greatest and least of n values
template <typename T> static T best(bool mx, const std::vector<T> &v) {
  if (!mx) return v.size() == 2 ? il::min(v[0], v[1]) : il::min(v[0], v[1], v[2], v[3]);
  switch (v.size()) { case 2: return il::max(v[0], v[1]); case 3: return il::max(v[0], v[1], v[2]); case 4: return il::max(v[0], v[1], v[2], v[3]);
    case 5: return il::max(v[0], v[1], v[2], v[3], v[4]); default: return il::max(v[0], v[1], v[2], v[3], v[4], v[5]); }
}
static bool values(const std::string &op, const std::string &ty, Script &sc, Out &o) {
  if (op == "max" || op == "min") {
    const long n = sc.num(); std::vector<long> v; for (long i = 0; i < n; ++i) v.push_back(arg<long>(sc));
    const bool mx = op == "max";
    if (ty == "int") o.r = num(best<int>(mx, std::vector<int>(v.begin(), v.end())));
    else if (ty == "long") { const long r = best<long>(mx, v); o.r = num(r);
      if (mx && n == 2 && v[1] >= INT_MIN && v[1] <= INT_MAX && (il::max(v[0], static_cast<int>(v[1])) != r || il::max(static_cast<int>(v[1]), v[0]) != r)) o.ok = false; }
    else { std::vector<double> w; for (long x : v) w.push_back(x / 8.0); o.r = num(static_cast<long>(best<double>(mx, w) * 8)); }
    return true;
  }
  if (op == "absd") { const long a = arg<long>(sc); const double d = il::abs(a / 8.0) * 8; const float f = il::abs(static_cast<float>(a / 8.0)) * 8; o.r = num(static_cast<long>(d)); if (a > -(1 << 23) && a < (1 << 23) && f != d) o.ok = false; return true; }
  if (op == "floord") { o.r = num(static_cast<long>(il::floor(arg<long>(sc) / 8.0))); return true; }
  if (op == "cabs") { const double a = static_cast<double>(arg<long>(sc)), b = static_cast<double>(arg<long>(sc)); o.r = num(static_cast<long>(il::abs(std::complex<double>(a, b))));
    if (a * a + b * b < (1 << 24) && il::abs(std::complex<float>(static_cast<float>(a), static_cast<float>(b))) != static_cast<float>(il::abs(std::complex<double>(a, b)))) o.ok = false; return true; }
  if (op == "conj") { const double a = static_cast<double>(arg<long>(sc)), b = static_cast<double>(arg<long>(sc)); const std::complex<double> z = il::conjugate(std::complex<double>(a, b));
    o.r = num(static_cast<long>(z.imag())); if (z.real() != a || il::conjugate(a) != a) o.ok = false; return true; }
  if (op == "real") { const double a = static_cast<double>(arg<long>(sc)), b = static_cast<double>(arg<long>(sc)); o.r = num(static_cast<long>(il::real(std::complex<double>(a, b)))); if (il::real(a) != a || il::real(static_cast<float>(1.5)) != 1.5f) o.ok = false; return true; }
  if (op == "finite") {
    const double c[4] = {-17.25, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    const double a = c[sc.num()], b = c[sc.num()];
    o.r = num(static_cast<int>(il::isFinite(std::complex<double>(a, b)))); if (b == c[0] && il::isFinite(a) != (a == c[0])) o.ok = false; return true;
  }
  return false;
}
int main() {
  heap_init();
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    while (sc.next()) {
      const std::string op = sc.str();
      if (op == "E") break;
      const std::string ty = sc.str();
      Out o;
      const bool arith = op == "sum" || op == "diff" || op == "prod2" || op == "prods" || op == "div" || op == "upper" || op == "conv";
      if (arith) {
        if (ty == "int") signedOps<int, unsigned>(op, sc, o);
        else if (ty == "long") signedOps<long, unsigned long>(op, sc, o);
        else if (ty == "llong") signedOps<long long, unsigned long long>(op, sc, o);
        else if (ty == "uint") unsignedOps<unsigned, int>(op, sc, o);
        else if (ty == "ulong") unsignedOps<unsigned long, long>(op, sc, o);
        else unsignedOps<unsigned long long, long long>(op, sc, o);
      }
      else if (op == "double") { typedef long T; const long a = arg<long>(sc); CALL(il::safeProduct2Positive(a, il::io, error)); }
      else if (op == "floor") {
        const il::int_t a = arg<il::int_t>(sc), b = arg<il::int_t>(sc);
        const il::int_t r = il::floor(a, b); o.r = num(r);
        if (b <= INT_MAX && il::floor(a, static_cast<int>(b)) != r) o.ok = false;
      }
      else if (op == "nextp2") { if (ty == "uint") o.r = num(il::next_power_of_2_32(arg<unsigned>(sc))); else o.r = num<std::uint64_t>(il::next_power_of_2_64(arg<std::uint64_t>(sc))); }
      else if (op == "prevp2") { if (ty == "uint") o.r = num(il::previous_power_of_2_32(arg<unsigned>(sc))); else o.r = num<std::uint64_t>(il::previous_power_of_2_64(arg<std::uint64_t>(sc))); }
      else if (op == "log2") { o.n = ty == "uint" ? il::next_log2_32(arg<unsigned>(sc)) : il::nextLog2(arg<std::size_t>(sc)); }
      else if (values(op, ty, sc, o)) {}
      else if (ty == "int") { if (!math<int>(op, sc, o) && !mathN<int>(op, sc, o)) exit(3); }
      else { if (!math<il::int_t>(op, sc, o) && !mathN<il::int_t>(op, sc, o)) exit(3); }
      Json j; j.str("st", o.ok ? "ok" : "abort").b("err", o.err).raw("r", o.r);
      if (op == "log2") j.i("n", o.n);
      j.emit();
    }
    Json j; j.i("live", 0).i("faults", 0).i("blocks", 0); j.emit();
  }
  return 0;
}
