// il::Dynamic driven by scripts.  Header: S dynamic <mode>
#include "vf.h"
#include <algorithm>
#include <il/Dynamic.h>
using namespace vf;

typedef il::Dynamic D;
typedef il::Array<D> Arr;
typedef il::Map<il::String, D> Mp;
typedef il::MapArray<il::String, D> Ma;

static const char *kTypes[] = {"void", "bool", "u8", "i8", "u16", "i16", "u32", "u64", "int", "f32", "f64", "str", "arr", "map", "marr", "au8", "ai8",
                               "au16", "ai16", "au32", "ai32", "au64", "ai64", "af64", "a2u8", "a2f64"};
static const int kNb = sizeof(kTypes) / sizeof(kTypes[0]);

struct Node { std::string t; std::vector<long> n; std::vector<long> k; std::vector<Node> c; };
static Node parse(Script &sc) {
  Node v; v.t = sc.str(); v.n = sc.list();
  const long m = sc.num(); const bool keyed = v.t == "map" || v.t == "marr";
  for (long i = 0; i < m; ++i) { if (keyed) v.k.push_back(sc.num()); v.c.push_back(parse(sc)); }
  return v;
}
template <typename T> static void limbs(std::vector<long> &o, T x) {
  unsigned char b[sizeof(T)]; memcpy(b, &x, sizeof(T));
  if (sizeof(T) == 1) o.push_back(static_cast<long>(x));
  else for (size_t i = 0; i < sizeof(T); i += 2) o.push_back(b[i] | (b[i + 1] << 8));
}
template <typename T> static T unlimb(const std::vector<long> &n, size_t &p) {
  T x;
  if (sizeof(T) == 1) return static_cast<T>(n[p++]);
  unsigned char b[sizeof(T)];
  for (size_t i = 0; i < sizeof(T); i += 2, ++p) { b[i] = n[p] & 255; b[i + 1] = (n[p] >> 8) & 255; }
  memcpy(&x, b, sizeof(T)); return x;
}
static std::string key_text(long k) { std::string s = "k" + std::to_string(k); if (k >= 100) s += std::string(40, '.'); return s; }
static long key_of(const il::String &s) {
  std::string t(s.data(), s.size());
  long k = strtol(t.c_str() + (t.empty() ? 0 : 1), nullptr, 10);
  return t == key_text(k) ? k : -1;
}
static il::String key_str(long k) { std::string s = key_text(k); return il::String(il::StringType::Ascii, s.data(), s.size()); }
static il::String text(const std::vector<long> &n) {
  std::string s; bool ascii = true;
  for (size_t i = 0; i < n.size(); ++i) { s += static_cast<char>(n[i]); if (n[i] > 127) ascii = false; }
  return il::String(ascii ? il::StringType::Ascii : il::StringType::Utf8, s.data(), s.size());
}
template <typename T> static il::Array<T> arr(const Node &v) {
  il::Array<T> a{}; size_t p = 0; while (p < v.n.size()) a.Append(unlimb<T>(v.n, p)); return a;
}
template <typename T> static il::Array2D<T> arr2(const Node &v) {
  il::Array2D<T> a(v.n[0], v.n[1]); size_t p = 2;
  for (il::int_t j = 0; j < a.size(1); ++j) for (il::int_t i = 0; i < a.size(0); ++i) a(i, j) = unlimb<T>(v.n, p);
  return a;
}
static D *make(const Node &v, bool mv);
// a container -> value, by copy or by move of the container
template <typename C> static D *wrap(C &c, bool mv) { return mv ? new D(std::move(c)) : new D(static_cast<const C &>(c)); }
static D *make(const Node &v, bool mv) {
  size_t p = 0; const std::string &t = v.t;
  if (t == "void") return new D{};
  if (t == "bool") return new D(v.n[0] != 0);
  if (t == "u8") return new D(static_cast<unsigned char>(v.n[0]));
  if (t == "i8") return new D(static_cast<signed char>(v.n[0]));
  if (t == "u16") return new D(unlimb<unsigned short>(v.n, p));
  if (t == "i16") return new D(unlimb<short>(v.n, p));
  if (t == "int") { const il::int_t x = unlimb<il::int_t>(v.n, p); return mv && x >= INT_MIN && x <= INT_MAX ? new D(static_cast<int>(x)) : new D(x); }
  if (t == "f32") return new D(unlimb<float>(v.n, p));
  if (t == "f64") return new D(unlimb<double>(v.n, p));
  if (t == "str") {
    if (v.n.size() == 2 && v.n[0] == 'a' && v.n[1] == 'b') return new D("ab");
    if (!mv && v.n.size() % 2) { std::string s; bool ascii = true; for (long x : v.n) { s += static_cast<char>(x); if (x > 127) ascii = false; } return new D(ascii ? il::StringType::Ascii : il::StringType::Utf8, s.data(), s.size()); }
    il::String s = text(v.n); return wrap(s, mv);
  }
  if (t == "arr") { Arr a{}; for (const Node &c : v.c) { std::unique_ptr<D> d(make(c, mv)); a.Append(std::move(*d)); } return wrap(a, mv); }
  if (t == "map") { Mp a{}; for (size_t i = 0; i < v.c.size(); ++i) { std::unique_ptr<D> d(make(v.c[i], mv)); a.Set(key_str(v.k[i]), std::move(*d)); } return wrap(a, mv); }
  if (t == "marr") { Ma a{}; for (size_t i = 0; i < v.c.size(); ++i) { std::unique_ptr<D> d(make(v.c[i], mv)); a.Set(key_str(v.k[i]), std::move(*d)); } return wrap(a, mv); }
#define ARR(name, T) if (t == name) { il::Array<T> a = arr<T>(v); return wrap(a, mv); }
  ARR("au8", unsigned char) ARR("ai8", signed char) ARR("au16", unsigned short) ARR("ai16", short) ARR("au32", unsigned int) ARR("ai32", int)
  ARR("au64", il::uint_t) ARR("ai64", il::int_t) ARR("af64", double)
  if (t == "a2u8") { il::Array2D<unsigned char> a = arr2<unsigned char>(v); return wrap(a, mv); }
  if (t == "a2f64") { il::Array2D<double> a = arr2<double>(v); return wrap(a, mv); }
  fprintf(stderr, "unknown type %s\n", t.c_str()); exit(3);
}
// v stored in d by the operator= of its type where there is one
static void store(D &d, const Node &v, bool w) {
  size_t p = 0; const std::string &t = v.t;
  if (t == "bool") d = v.n[0] != 0;
  else if (t == "u8") d = static_cast<unsigned char>(v.n[0]);
  else if (t == "i8") d = static_cast<signed char>(v.n[0]);
  else if (t == "u16") d = unlimb<unsigned short>(v.n, p);
  else if (t == "i16") d = unlimb<short>(v.n, p);
  else if (t == "int") { const il::int_t x = unlimb<il::int_t>(v.n, p); if (w && x >= INT_MIN && x <= INT_MAX) d = static_cast<int>(x); else d = x; }
  else if (t == "f32") d = unlimb<float>(v.n, p);
  else if (t == "f64") d = unlimb<double>(v.n, p);
  else if (t == "str") { il::String s = text(v.n); if (w) d = std::move(s); else d = static_cast<const il::String &>(s); }
  else { std::unique_ptr<D> x(make(v, w)); if (w) d = std::move(*x); else d = static_cast<const D &>(*x); }
}
static bool same(il::Type a, il::Type b) { return a == b; }
template <typename T> static bool has(const D &d) { return d.is<T>() && same(d.type(), il::typeId<T>()); }
static bool has_type(const D &d, int i) {
  switch (i) {
    case 0: return d.type() == il::Type::Void;
    case 1: return has<bool>(d);
    case 2: return has<unsigned char>(d);
    case 3: return has<signed char>(d);
    case 4: return has<unsigned short>(d);
    case 5: return has<short>(d);
    case 6: return has<unsigned int>(d);
    case 7: return has<il::uint_t>(d);
    case 8: return has<il::int_t>(d);
    case 9: return has<float>(d);
    case 10: return has<double>(d);
    case 11: return has<il::String>(d);
    case 12: return has<Arr>(d);
    case 13: return has<Mp>(d);
    case 14: return has<Ma>(d);
    case 15: return has<il::Array<unsigned char>>(d);
    case 16: return has<il::Array<signed char>>(d);
    case 17: return has<il::Array<unsigned short>>(d);
    case 18: return has<il::Array<short>>(d);
    case 19: return has<il::Array<unsigned int>>(d);
    case 20: return has<il::Array<int>>(d);
    case 21: return has<il::Array<il::uint_t>>(d);
    case 22: return has<il::Array<il::int_t>>(d);
    case 23: return has<il::Array<double>>(d);
    case 24: return has<il::Array2D<unsigned char>>(d);
    case 25: return has<il::Array2D<double>>(d);
  }
  return false;
}
template <typename T> static void out(std::vector<long> &o, const il::Array<T> &a) { for (il::int_t i = 0; i < a.size(); ++i) limbs<T>(o, a[i]); }
template <typename T> static void out(std::vector<long> &o, const il::Array2D<T> &a) {
  o.push_back(a.size(0)); o.push_back(a.size(1));
  for (il::int_t j = 0; j < a.size(1); ++j) for (il::int_t i = 0; i < a.size(0); ++i) limbs<T>(o, a(i, j));
}
static void out(std::vector<long> &o, const il::String &s) { for (il::int_t i = 0; i < s.size(); ++i) o.push_back(static_cast<unsigned char>(s.data()[i])); if (s.asCString()[s.size()] != 0) o.push_back(-1); }
static void out(std::vector<long> &, const Arr &) {}
static void out(std::vector<long> &, const Mp &) {}
static void out(std::vector<long> &, const Ma &) {}
template <typename T> static void big(std::vector<long> &o, D &d, bool edit) { if (edit) out(o, d.As<T>()); else out(o, static_cast<const D &>(d).as<T>()); }
template <typename T> static void scal(std::vector<long> &o, D &d, bool edit) { limbs<T>(o, edit ? d.As<T>() : static_cast<const D &>(d).to<T>()); }
static void content(std::vector<long> &o, D &d, int i, bool edit) {
  switch (i) {
    case 0: break;
    case 1: o.push_back(edit ? d.As<bool>() : d.to<bool>()); break;
    case 2: scal<unsigned char>(o, d, edit); break;
    case 3: scal<signed char>(o, d, edit); break;
    case 4: scal<unsigned short>(o, d, edit); break;
    case 5: scal<short>(o, d, edit); break;
    case 6: scal<unsigned int>(o, d, edit); break;
    case 7: scal<il::uint_t>(o, d, edit); break;
    case 8: scal<il::int_t>(o, d, edit); break;
    case 9: scal<float>(o, d, edit); break;
    case 10: scal<double>(o, d, edit); break;
    case 11: big<il::String>(o, d, edit); break;
    case 12: big<Arr>(o, d, edit); break;
    case 13: big<Mp>(o, d, edit); break;
    case 14: big<Ma>(o, d, edit); break;
    case 15: big<il::Array<unsigned char>>(o, d, edit); break;
    case 16: big<il::Array<signed char>>(o, d, edit); break;
    case 17: big<il::Array<unsigned short>>(o, d, edit); break;
    case 18: big<il::Array<short>>(o, d, edit); break;
    case 19: big<il::Array<unsigned int>>(o, d, edit); break;
    case 20: big<il::Array<int>>(o, d, edit); break;
    case 21: big<il::Array<il::uint_t>>(o, d, edit); break;
    case 22: big<il::Array<il::int_t>>(o, d, edit); break;
    case 23: big<il::Array<double>>(o, d, edit); break;
    case 24: big<il::Array2D<unsigned char>>(o, d, edit); break;
    case 25: big<il::Array2D<double>>(o, d, edit); break;
  }
}
static std::string node(const std::string &t, const std::vector<long> &n, const std::vector<long> &k, const std::vector<std::string> &c) {
  Json j; return j.str("t", t).list("n", n).list("k", k).rawlist("c", c).end();
}
static std::string obs(D &d, int depth = 0) {
  std::vector<long> n, k; std::vector<std::string> c; int ty = -1;
  for (int i = 0; i < kNb; ++i) if (has_type(d, i)) { ty = i; break; }
  if (ty < 0 || depth > 40) return node("?", n, k, c);
  content(n, d, ty, false);
  if (ty == 12) { Arr &a = d.As<Arr>(); for (il::int_t i = 0; i < a.size(); ++i) c.push_back(obs(a[i], depth + 1)); }
  if (ty == 13) {
    Mp &m = d.As<Mp>(); std::vector<std::pair<long, std::string>> v;
    for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) v.push_back(std::make_pair(key_of(m.key(i)), obs(m.Value(i), depth + 1)));
    std::sort(v.begin(), v.end());
    for (size_t i = 0; i < v.size(); ++i) { k.push_back(v[i].first); c.push_back(v[i].second); }
  }
  if (ty == 14) { Ma &m = d.As<Ma>(); for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) { k.push_back(key_of(m.key(i))); c.push_back(obs(m.Value(i), depth + 1)); } }
  return node(kTypes[ty], n, k, c);
}
static D &at(D *d, const std::vector<long> &p) {
  for (long x : p) {
    if (d->is<Arr>()) d = &d->As<Arr>()[x - 1];
    else if (d->is<Mp>()) {
      Mp &m = d->As<Mp>(); std::vector<std::pair<long, D *>> v;
      for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) v.push_back(std::make_pair(key_of(m.key(i)), &m.Value(i)));
      std::sort(v.begin(), v.end());
      d = v.at(x - 1).second;
    } else if (d->is<Ma>()) {
      Ma &m = d->As<Ma>(); il::spot_t i = m.spotBegin();
      for (long y = 1; y < x; ++y) i = m.next(i);
      d = &m.Value(i);
    } else { fprintf(stderr, "no such path\n"); exit(4); }
  }
  return *d;
}
int main() {
  heap_init();
  Script sc;
  const int N = 3;
  while (sc.next()) {
    if (sc.line == "Q") break;
    std::unique_ptr<D> slot[N];
    reg().reset(); g_blocks = 0;
    while (sc.next()) {
      const std::string op = sc.str();
      if (op == "E") break;
      const int s = sc.num() - 1;
      std::vector<long> ret; bool ok = true;
      if (op == "new") { Heap h; slot[s].reset(new D{}); }
      else if (op == "new_type") {
        Node v = parse(sc); il::Type t = il::Type::Void;
        for (int i = 1; i < 11; ++i) if (v.t == kTypes[i]) t = i == 1 ? il::Type::Bool : i == 2 ? il::Type::UInt8 : i == 3 ? il::Type::Int8 : i == 4 ? il::Type::UInt16 : i == 5 ? il::Type::Int16
          : i == 6 ? il::Type::UInt32 : i == 7 ? il::Type::UInteger : i == 8 ? il::Type::Integer : i == 9 ? il::Type::Single : il::Type::Double;
        Heap h; slot[s].reset(new D(t));
      }
      else if (op == "new_val") { Node v = parse(sc); const bool w = sc.num(); Heap h; slot[s].reset(make(v, w)); }
      else if (op == "set_val") { std::vector<long> q = sc.list(); Node v = parse(sc); const bool w = sc.num(); Heap h; store(at(slot[s].get(), q), v, w); }
      else if (op == "new_copy") { const int t = sc.num() - 1; std::vector<long> p = sc.list(); Heap h; slot[s].reset(new D(static_cast<const D &>(at(slot[t].get(), p)))); }
      else if (op == "new_move") { const int t = sc.num() - 1; std::vector<long> p = sc.list(); Heap h; slot[s].reset(new D(std::move(at(slot[t].get(), p)))); }
      else if (op == "copy_assign" || op == "move_assign" || op == "str_assign" || op == "append_part") {
        std::vector<long> q = sc.list(); const int t = sc.num() - 1; std::vector<long> p = sc.list();
        Heap h; D &dst = at(slot[s].get(), q); D &src = at(slot[t].get(), p);
        if (op == "copy_assign") dst = static_cast<const D &>(src);
        else if (op == "move_assign") dst = std::move(src);
        else if (op == "str_assign") dst = static_cast<const D &>(src).as<il::String>();
        else dst.As<Arr>().Append(static_cast<const D &>(src));
      }
      else if (op == "append") {
        std::vector<long> q = sc.list(); Node v = parse(sc); const bool w = sc.num(); Heap h;
        std::unique_ptr<D> x(make(v, w)); Arr &a = at(slot[s].get(), q).As<Arr>();
        if (w) a.Append(std::move(*x)); else a.Append(static_cast<const D &>(*x));
      }
      else if (op == "key") {
        std::vector<long> q = sc.list(); const long key = sc.num(); Node v = parse(sc); const bool w = sc.num(); Heap h;
        std::unique_ptr<D> x(make(v, w)); D &d = at(slot[s].get(), q); il::String k = key_str(key);
        if (d.is<Mp>()) { if (w) d.As<Mp>().Set(std::move(k), std::move(*x)); else d.As<Mp>().Set(static_cast<const il::String &>(k), static_cast<const D &>(*x)); }
        else { if (w) d.As<Ma>().Set(std::move(k), std::move(*x)); else d.As<Ma>().Set(static_cast<const il::String &>(k), static_cast<const D &>(*x)); }
      }
      else if (op == "destroy") { Heap h; slot[s].reset(); }
      else if (op == "is") { D &d = at(slot[s].get(), sc.list()); for (int i = 1; i < kNb; ++i) ret.push_back(has_type(d, i)); }
      else if (op == "access") {
        D &d = at(slot[s].get(), sc.list()); const int ty = sc.num() - 1; std::vector<long> o, o2;
        ok = guarded([&] { content(o, d, ty, false); }); const bool ok2 = guarded([&] { content(o2, d, ty, true); });
        if (ok) { ret.push_back(o.size()); ret.insert(ret.end(), o.begin(), o.end()); }
        if (ok != ok2 || o != o2) ret.push_back(-99);
      }
      else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
      std::vector<std::string> ob;
      for (int k = 0; k < N; ++k) {
        Json j; j.b("on", static_cast<bool>(slot[k]));
        std::vector<long> z; std::vector<std::string> zs;
        ob.push_back(j.raw("v", slot[k] ? obs(*slot[k]) : node("void", z, z, zs)).end());
      }
      Json j;
      j.str("st", ok ? "ok" : "abort").list("r", ret).rawlist("obs", ob).i("live", 0).i("faults", reg().faults);
      j.emit();
    }
    { Heap h; for (int k = 0; k < N; ++k) slot[k].reset(); }
    Json j; j.i("live", 0).i("faults", reg().faults).i("blocks", g_blocks); j.emit();
  }
  return 0;
}
