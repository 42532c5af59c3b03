// Trees of il::Dynamic for the harnesses of the file formats: read from scripts, shown in
// lines.  A node is [t, n, k, c]: a type, numbers, the keys (bytes), the children.
#ifndef VF_DYN_H
#define VF_DYN_H
#include "vf.h"
#include <cmath>
#include <dirent.h>
#include <sys/stat.h>
#include <fstream>
#include <iterator>
#include <il/Dynamic.h>
#include <il/Status.h>
namespace vf {
typedef il::Dynamic D;
typedef il::Array<D> Arr;
typedef il::Map<il::String, D> Mp;
typedef il::MapArray<il::String, D> Ma;

inline long fds() {
  long n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
inline std::vector<long> bytes(const std::string &p) {
  std::ifstream f(p.c_str(), std::ios::binary);
  std::vector<long> o;
  std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  for (char c : t) o.push_back(static_cast<unsigned char>(c));
  return o;
}
inline void put(const std::string &p, const std::vector<long> &b) {
  std::ofstream f(p.c_str(), std::ios::binary | std::ios::trunc);
  for (long x : b) f.put(static_cast<char>(x));
}
inline il::String str(const std::vector<long> &n) {
  std::string s; bool ascii = true;
  for (long x : n) { s += static_cast<char>(x); if (x > 127) ascii = false; }
  return il::String(ascii ? il::StringType::Ascii : il::StringType::Byte, s.data(), s.size());
}
inline std::vector<long> text(const il::String &s) {
  std::vector<long> o;
  for (il::int_t i = 0; i < s.size(); ++i) o.push_back(static_cast<unsigned char>(s.data()[i]));
  return o;
}
// bits of a number in pieces of 16 (numbers of one byte: as they are)
template <typename T> void limbs(std::vector<long> &o, T x) {
  unsigned char b[sizeof(T)]; memcpy(b, &x, sizeof(T));
  if (sizeof(T) == 1) o.push_back(static_cast<long>(x));
  else for (size_t i = 0; i < sizeof(T); i += 2) o.push_back(b[i] | (b[i + 1] << 8));
}
template <typename T> T unlimb(const std::vector<long> &n, size_t &p) {
  T x;
  if (sizeof(T) == 1) return static_cast<T>(n[p++]);
  unsigned char b[sizeof(T)];
  for (size_t i = 0; i < sizeof(T); i += 2, ++p) { b[i] = n[p] & 255; b[i + 1] = (n[p] >> 8) & 255; }
  memcpy(&x, b, sizeof(T)); return x;
}
struct Node { std::string t; std::vector<long> n; std::vector<std::vector<long>> k; std::vector<Node> c; };
inline Node parse(Script &sc) {
  Node v; v.t = sc.str(); v.n = sc.list();
  const long m = sc.num(); const bool keyed = v.t == "map" || v.t == "marr";
  for (long i = 0; i < m; ++i) { if (keyed) v.k.push_back(sc.list()); v.c.push_back(parse(sc)); }
  return v;
}
template <typename T> il::Array<T> arr(const Node &v) { il::Array<T> a{}; size_t p = 0; while (p < v.n.size()) a.Append(unlimb<T>(v.n, p)); return a; }
// n = dimensions and capacities (0: none), then the elements
template <typename T> il::Array2D<T> arr2(const Node &v) {
  il::Array2D<T> a(v.n[0], v.n[1]); size_t p = 4;
  for (il::int_t j = 0; j < a.size(1); ++j) for (il::int_t i = 0; i < a.size(0); ++i) a(i, j) = unlimb<T>(v.n, p);
  if (v.n[2] || v.n[3]) a.Reserve(v.n[2], v.n[3]);
  return a;
}
inline D make(const Node &v);
template <typename M> M table(const Node &v) { M m{}; for (size_t i = 0; i < v.c.size(); ++i) m.Set(str(v.k[i]), make(v.c[i])); return m; }
inline D make(const Node &v) {
  size_t p = 0; const std::string &t = v.t;
  if (t == "void") return D{};
  if (t == "bool") return D(v.n[0] != 0);
  if (t == "u8") return D(static_cast<unsigned char>(v.n[0]));
  if (t == "i8") return D(static_cast<signed char>(v.n[0]));
  if (t == "u16") return D(unlimb<unsigned short>(v.n, p));
  if (t == "i16") return D(unlimb<short>(v.n, p));
  if (t == "int") return D(unlimb<il::int_t>(v.n, p));
  if (t == "f32") return D(unlimb<float>(v.n, p));
  if (t == "f64") return D(unlimb<double>(v.n, p));
  if (t == "str") return D(str(v.n));
  if (t == "arr") { Arr a{}; for (const Node &c : v.c) a.Append(make(c)); return D(std::move(a)); }
  if (t == "map") return D(table<Mp>(v));
  if (t == "marr") return D(table<Ma>(v));
#define VF_ARR(name, T) if (t == name) return D(arr<T>(v));
  VF_ARR("au8", unsigned char) VF_ARR("ai8", signed char) VF_ARR("au16", unsigned short) VF_ARR("ai16", short) VF_ARR("au32", unsigned int) VF_ARR("ai32", int)
  VF_ARR("au64", il::uint_t) VF_ARR("ai64", il::int_t) VF_ARR("af64", double)
  if (t == "a2u8") return D(arr2<unsigned char>(v));
  if (t == "a2f64") return D(arr2<double>(v));
  fprintf(stderr, "unknown type %s\n", t.c_str()); exit(3);
}
inline std::string node(const std::string &t, const std::vector<long> &n = std::vector<long>(), const std::vector<std::string> &k = std::vector<std::string>(),
                        const std::vector<std::string> &c = std::vector<std::string>()) {
  Json j; return j.str("t", t).list("n", n).rawlist("k", k).rawlist("c", c).end();
}
inline std::string list(const std::vector<long> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
// a finite double as m * 2^e with m in base 10^4; an integer as sign and decimal digits
inline std::string show_double(double x) {
  if (std::isnan(x)) return node("nan");
  std::vector<long> n(1, std::signbit(x) ? 1 : 0);
  if (std::isinf(x)) return node("inf", n);
  int e = 0;
  const double f = std::frexp(std::fabs(x), &e);
  int shift = 53; if (e - shift < -1074) shift = e + 1074;
  if (x == 0) { e = -1074; shift = 0; }
  unsigned long long m = static_cast<unsigned long long>(std::ldexp(f, shift));
  n.push_back(e - shift);
  for (; m; m /= 10000) n.push_back(static_cast<long>(m % 10000));
  return node("flt", n);
}
inline std::string show_int(il::int_t x) {
  std::vector<long> n(1, x < 0 ? 1 : 0);
  std::string s = std::to_string(x);
  for (char c : s) if (c != '-' && !(c == '0' && s.size() == 1)) n.push_back(c - '0');
  return node("int", n);
}
template <typename T> std::string show_arr(const char *t, const il::Array<T> &a) { std::vector<long> n; for (il::int_t i = 0; i < a.size(); ++i) limbs<T>(n, a[i]); return node(t, n); }
template <typename T> std::string show_arr2(const char *t, const il::Array2D<T> &a) {
  std::vector<long> n; n.push_back(a.size(0)); n.push_back(a.size(1)); n.push_back(0); n.push_back(0);
  for (il::int_t j = 0; j < a.size(1); ++j) for (il::int_t i = 0; i < a.size(0); ++i) limbs<T>(n, a(i, j));
  return node(t, n);
}
// decimal: numbers as decimals and tables as "tab", else bits and "map"/"marr"
inline std::string show(const D &d, bool decimal);
template <typename M> std::string show_table(const M &m, const char *t, bool decimal) {
  std::vector<std::string> k, c;
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) {
    k.push_back(list(text(m.key(i)))); c.push_back(show(m.value(i), decimal));
    // the key finds the entry
    const il::spot_t j = m.search(m.key(i));
    if (!m.found(j) || &m.value(j) != &m.value(i)) return node("lost key");
  }
  return node(decimal ? "tab" : t, std::vector<long>(), k, c);
}
template <typename T> std::string scalar(const char *t, T x) { std::vector<long> n; limbs<T>(n, x); return node(t, n); }
inline std::string show(const D &d, bool decimal) {
  switch (d.type()) {
    case il::Type::Void: return node("void");
    case il::Type::Bool: return node("bool", std::vector<long>(1, d.to<bool>()));
    case il::Type::UInt8: return scalar<unsigned char>("u8", d.to<unsigned char>());
    case il::Type::Int8: return scalar<signed char>("i8", d.to<signed char>());
    case il::Type::UInt16: return scalar<unsigned short>("u16", d.to<unsigned short>());
    case il::Type::Int16: return scalar<short>("i16", d.to<short>());
    case il::Type::Integer: return decimal ? show_int(d.to<il::int_t>()) : scalar<il::int_t>("int", d.to<il::int_t>());
    case il::Type::Single: return scalar<float>("f32", d.to<float>());
    case il::Type::Double: return decimal ? show_double(d.to<double>()) : scalar<double>("f64", d.to<double>());
    case il::Type::UnicodeString: return node("str", text(d.as<il::String>()));
    case il::Type::ArrayOfDynamic: {
      const Arr &a = d.as<Arr>(); std::vector<std::string> c;
      for (il::int_t i = 0; i < a.size(); ++i) c.push_back(show(a[i], decimal));
      return node("arr", std::vector<long>(), std::vector<std::string>(), c);
    }
    case il::Type::MapStringToDynamic: return show_table(d.as<Mp>(), "map", decimal);
    case il::Type::MapArrayStringToDynamic: return show_table(d.as<Ma>(), "marr", decimal);
    case il::Type::ArrayOfUInt8: return show_arr("au8", d.as<il::Array<unsigned char>>());
    case il::Type::ArrayOfInt8: return show_arr("ai8", d.as<il::Array<signed char>>());
    case il::Type::ArrayOfUInt16: return show_arr("au16", d.as<il::Array<unsigned short>>());
    case il::Type::ArrayOfInt16: return show_arr("ai16", d.as<il::Array<short>>());
    case il::Type::ArrayOfUInt32: return show_arr("au32", d.as<il::Array<unsigned int>>());
    case il::Type::ArrayOfInt32: return show_arr("ai32", d.as<il::Array<int>>());
    case il::Type::ArrayOfUInt64: return show_arr("au64", d.as<il::Array<il::uint_t>>());
    case il::Type::ArrayOfInt64: return show_arr("ai64", d.as<il::Array<il::int_t>>());
    case il::Type::ArrayOfDouble: return show_arr("af64", d.as<il::Array<double>>());
    case il::Type::Array2DOfUInt8: return show_arr2("a2u8", d.as<il::Array2D<unsigned char>>());
    case il::Type::Array2DOfDouble: return show_arr2("a2f64", d.as<il::Array2D<double>>());
    default: return node("?");
  }
}
}  // namespace vf
#endif
