// il::String, il::StringView and the functions of algorithmString.h (-DONLY=14);
// the encodings and il::UTF16String (-DONLY=15), driven by scripts.
// Header: S <utf8|utf16|codec> <mode>
#include "vf.h"
#include <il/String.h>
#include <il/container/string/algorithmString.h>
#include <il/container/string/unicode.h>
using namespace vf;
typedef std::vector<long> Vec;

// Exactly the bytes, without anything after: whoever reads past the end is noticed
struct Buf {
  char *p; long n;
  explicit Buf(const Vec &v, bool z = false) : n(v.size()) {
    NoHeap g;
    p = static_cast<char *>(malloc(n + (z ? 1 : 0) + (n + z == 0 ? 1 : 0)));
    for (long k = 0; k < n; ++k) p[k] = static_cast<char>(v[k]);
    if (z) p[n] = '\0';
  }
  ~Buf() { NoHeap g; free(p); }
};
static long u8(char c) { return static_cast<unsigned char>(c); }
static void push(Vec &r, const char *p, long n) { NoHeap g; for (long k = 0; k < n; ++k) r.push_back(u8(p[k])); }

// The same literals are in checks/c14.py
#define LITS(X) X(0, "") X(1, "a") X(2, "hello") X(3, u8"\u00e9\u2203!") X(4, "twenty-one characters") X(5, "twenty-two characters!") \
  X(6, "twenty-three characters") X(7, "a\0b") X(8, "a literal which is long enough for the heap \xF0\x9F\x98\x80")

struct U8 {
  typedef il::String C;
  static std::string none() { return "{\"on\":false,\"n\":0,\"v\":[],\"ty\":0,\"cap\":0,\"small\":true,\"nul\":true,\"still\":true,\"empty\":true}"; }
  static std::string obs(C &a, const void *old, long cap) {
    Json j; const C &c = a; Vec v;
    long n = c.size();
    if (n < 0 || n > 100000) n = 0;
    push(v, c.data(), n);
    const bool in = c.data() >= reinterpret_cast<const char *>(&c) && c.data() < reinterpret_cast<const char *>(&c + 1);
    return j.b("on", true).i("n", c.size()).list("v", v).i("ty", static_cast<long>(c.type()) >> 5).i("cap", c.capacity())
        .b("small", c.isSmall()).b("nul", c.asCString()[n] == '\0' && a.Data() == c.data() && c.isAscii() == (c.type() == il::StringType::Ascii) && in == c.isSmall())
        .b("still", !old || c.size() > cap || c.data() == old).b("empty", c.isEmpty()).end();
  }
  static il::StringType type(long t) { return static_cast<il::StringType>(t << 5); }
  static std::vector<il::StringView> views(Script &sc, std::unique_ptr<C> *slot) {
    Vec w = sc.list(); std::vector<il::StringView> r;
    for (size_t k = 0; k + 2 < w.size(); k += 3) r.push_back(il::StringView(*slot[w[k] - 1]).subview(w[k + 1], w[k + 2]));
    return r;
  }
  static bool op(const std::string &op, Script &sc, std::unique_ptr<C> *slot, int s, Vec &ret) {
    std::unique_ptr<C> &a = slot[s];
    if (op == "new") { Heap h; a.reset(new C{}); return true; }
    if (op == "new_char") { long c = sc.num(); Heap h; return guarded([&] { a.reset(new C(static_cast<char>(c))); }); }
    if (op == "new_lit") { long k = sc.num(); Heap h;
#define X(K, L) if (k == K) a.reset(new C(L));
      LITS(X)
#undef X
      return true; }
    if (op == "new_lit_t") { long t = sc.num(), k = sc.num(); Heap h;
#define X(K, L) if (k == K) a.reset(new C(type(t), L));
      LITS(X)
#undef X
      return true; }
    if (op == "assign_lit") { long k = sc.num();
      if (k >= 0) { Heap h;
#define X(K, L) if (k == K) *a = L;
      LITS(X)
#undef X
      return true; }
    }
    if (op == "append_lit") { long k = sc.num(); Heap h;
#define X(K, L) if (k == K) a->Append(L);
      LITS(X)
#undef X
      return true; }
    if (op == "append_lit_t") { long t = sc.num(), k = sc.num(); Heap h;
#define X(K, L) if (k == K) a->Append(type(t), L);
      LITS(X)
#undef X
      return true; }
    if (op == "insert_lit") { long i = sc.num(), k = sc.num(); Heap h; return guarded([&] {
#define X(K, L) if (k == K) a->Insert(i, L);
      LITS(X)
#undef X
      }); }
    if (op == "new_bytes") { long t = sc.num(); Buf b(sc.list()); Heap h; return guarded([&] { a.reset(new C(type(t), b.p, b.n)); }); }
    if (op == "new_views") {
      std::vector<il::StringView> w = views(sc, slot); Heap h;
      switch (w.size()) {
        case 1: a.reset(new C(w[0])); break;
        case 2: a.reset(new C(il::join(w[0], w[1]))); break;
        case 3: a.reset(new C(il::join(w[0], w[1], w[2]))); break;
        case 4: a.reset(new C(il::join(w[0], w[1], w[2], w[3]))); break;
        case 5: a.reset(new C(il::join(w[0], w[1], w[2], w[3], w[4]))); break;
        default: a.reset(new C(il::join(w[0], w[1], w[2], w[3], w[4], w[5])));
      }
      return true;
    }
    if (op == "clear") { Heap h; a->Clear(); return true; }
    if (op == "reserve") { long n = sc.num(); Heap h; return guarded([&] { a->Reserve(n); }); }
    if (op == "append_char") { long c = sc.num(); Heap h; return guarded([&] { a->Append(static_cast<char>(c)); }); }
    if (op == "append_rune") { long u = sc.num(); Heap h; return guarded([&] { a->Append(static_cast<int>(u)); }); }
    if (op == "append_nchar") { long n = sc.num(), c = sc.num(); Heap h; return guarded([&] { a->Append(il::int_t(n), static_cast<char>(c)); }); }
    if (op == "append_nrune") { long n = sc.num(), u = sc.num(); Heap h; return guarded([&] { a->Append(il::int_t(n), static_cast<int>(u)); }); }
    if (op == "append_bytes") { long t = sc.num(); Buf b(sc.list()); Heap h; return guarded([&] { a->Append(type(t), b.p, b.n); }); }
    if (op == "append_views") {
      std::vector<il::StringView> w = views(sc, slot); Heap h;
      if (w.size() == 1) a->Append(w[0]); else if (w.size() == 2) a->Append(w[0], w[1]); else a->Append(w[0], w[1], w[2]);
      return true;
    }
    if (op == "append_self") { Heap h; a->Append(*a); return true; }
    if (op == "append_other") { const C &u = *slot[sc.num() - 1]; Heap h; a->Append(u); return true; }
    if (op == "insert_char") { long i = sc.num(), c = sc.num(); Heap h; return guarded([&] { a->Insert(i, static_cast<char>(c)); }); }
    if (op == "insert_nchar") { long i = sc.num(), n = sc.num(), c = sc.num(); Heap h; return guarded([&] { a->Insert(i, il::int_t(n), static_cast<char>(c)); }); }
    if (op == "insert_bytes") { long i = sc.num(), t = sc.num(); Buf b(sc.list()); Heap h; return guarded([&] { a->Insert(i, type(t), b.p, b.n); }); }
    if (op == "insert_view") { long i = sc.num(), t = sc.num(), p = sc.num(), q = sc.num(); il::StringView w = il::StringView(*slot[t - 1]).subview(p, q); Heap h; return guarded([&] { a->Insert(i, w); }); }
    const C &c = *a;
    const il::StringView w(c);
    if (op == "count") { char x = static_cast<char>(sc.num()); ret.push_back(c.count(x)); if (u8(x) < 128 && il::count(x, w) != c.count(x)) ret.push_back(-99); return true; }
    if (op == "search") { Buf b(sc.list()); il::StringView x(il::StringType::Byte, b.p, b.n); long f = c.search(x); ret.push_back(f); ret.push_back(c.found(f));
      if (il::search(x, w) != f) ret.push_back(-99); { C y(x); if (il::search(y, c) != f) ret.push_back(-98); } return true; }
    if (op == "substring") { long p = sc.num(), q = sc.num(); return guarded([&] { C r(c.substring(p, q)); NoHeap g; ret.push_back(static_cast<long>(r.type()) >> 5); push(ret, r.data(), r.size()); if (r.asCString()[r.size()] != '\0') ret.push_back(-99); }); }
    if (op == "subview") { long p = sc.num(), q = sc.num(); return guarded([&] { il::StringView r(c.subview(p, q)); ret.push_back(static_cast<long>(r.type()) >> 5); push(ret, r.data(), r.size());
      if (r.data() != c.data() + p || r.isEmpty() != (r.size() == 0)) ret.push_back(-99); }); }
    if (op == "starts") { Buf b(sc.list()); ret.push_back(c.startsWith(il::StringView(il::StringType::Byte, b.p, b.n))); return true; }
    if (op == "ends") { Buf b(sc.list()); ret.push_back(c.endsWith(il::StringView(il::StringType::Byte, b.p, b.n))); return true; }
    if (op == "ends_char") { ret.push_back(c.endsWith(static_cast<char>(sc.num()))); return true; }
    if (op == "cmp_bytes") { Vec x = sc.list(); Buf b(x), z(x, true); ret.push_back(c.isEqual(z.p)); ret.push_back(c.isEqual(b.p, b.n)); ret.push_back(c == z.p); ret.push_back(c != z.p); ret.push_back(z.p == c); ret.push_back(z.p != c);
      ret.push_back(w == z.p); return true; }
    if (op == "less_c") { Buf z(sc.list(), true); ret.push_back(z.p < c); return true; }
    if (op == "cmp") { const C &u = *slot[sc.num() - 1]; ret.push_back(c == u); ret.push_back(c < u); ret.push_back(u < c); return true; }
    if (op == "boundary") { long i = sc.num(); return guarded([&] { ret.push_back(c.isRuneBoundary(i)); }); }
    if (op == "runes") { il::int_t i = 0; while (i < w.size() && ret.size() < 10000) { ret.push_back(w.rune(i)); i = w.nextRune(i); } return true; }
    if (op == "stream") { long p = sc.num(), q = sc.num(); std::ostringstream os; os << w.subview(p, q); std::string o = os.str(); push(ret, o.data(), o.size()); return true; }
    if (op == "at") { long i = sc.num(); return guarded([&] { long x = u8(w[i]); ret.push_back(x); ret.push_back(u8(w.back(i))); }); }
    if (op == "has") { long i = sc.num(); return guarded([&] { ret.push_back(w.hasSpace(i)); ret.push_back(w.hasDigit(i)); ret.push_back(w.hasHexaDecimal(i)); ret.push_back(w.hasNewLine(i)); }); }
    if (op == "next") { long i = sc.num(); char x = static_cast<char>(sc.num()); ret.push_back(w.nextChar(i, x)); ret.push_back(w.nextDigit(i)); return true; }
    if (op == "trim") { il::StringView r(w); r.trimPrefix(); push(ret, r.data(), r.size()); il::StringView t = il::removeWhitespaceLeft(w); if (t.data() != r.data() || t.size() != r.size()) ret.push_back(-99); return true; }
    if (op == "cut") { long p = sc.num(), q = sc.num(); return guarded([&] { il::StringView r(w); r.removeSuffix(q); r.removePrefix(p); push(ret, r.data(), r.size()); }); }
    if (op == "number") {
      long neg = sc.num(); Vec d = sc.list(); std::string t = neg ? "-" : ""; for (long x : d) t += static_cast<char>('0' + x);
      C r(il::toString(static_cast<il::int_t>(strtoll(t.c_str(), nullptr, 10)))); push(ret, r.data(), r.size());
      if (!r.isAscii() || r.asCString()[r.size()] != '\0') ret.push_back(-99);
      return true;
    }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
  }
  static const void *data(const C &c) { return c.data(); }
};

struct U16 {
  typedef il::UTF16String C;
  static std::string none() { return U8::none(); }
  static std::string obs(C &a, const void *old, long cap) {
    Json j; const C &c = a; Vec v; long n = c.size();
    if (n < 0 || n > 100000) n = 0;
    for (long k = 0; k < n; ++k) v.push_back(c.data()[k]);
    return j.b("on", true).i("n", c.size()).list("v", v).i("ty", 0).i("cap", c.capacity()).b("small", c.isSmall())
        .b("nul", c.data()[n] == 0 && c.asWString()[n] == 0).b("still", !old || c.size() > cap || c.data() == old).b("empty", c.isEmpty()).end();
  }
  struct Wide { std::vector<char16_t> *v; explicit Wide(const Vec &x) { NoHeap g; v = new std::vector<char16_t>(x.begin(), x.end()); v->push_back(0); v->shrink_to_fit(); } ~Wide() { NoHeap g; delete v; } const char16_t *p() { return v->data(); } };
  static bool op(const std::string &op, Script &sc, std::unique_ptr<C> *slot, int s, Vec &ret) {
    std::unique_ptr<C> &a = slot[s];
    if (op == "new") { Heap h; a.reset(new C{}); return true; }
    if (op == "new_bytes") { sc.num(); Wide w(sc.list()); Heap h; a.reset(new C(w.p())); return true; }
    if (op == "reserve") { long n = sc.num(); Heap h; return guarded([&] { a->Reserve(n); }); }
    if (op == "append_char") { long c = sc.num(); Heap h; return guarded([&] { a->Append(static_cast<char>(c)); }); }
    if (op == "append_rune") { long u = sc.num(); Heap h; return guarded([&] { a->Append(static_cast<int>(u)); }); }
    if (op == "append_nchar") { long n = sc.num(), c = sc.num(); Heap h; return guarded([&] { a->Append(il::int_t(n), static_cast<char>(c)); }); }
    if (op == "append_nrune") { long n = sc.num(), u = sc.num(); Heap h; return guarded([&] { a->Append(il::int_t(n), static_cast<int>(u)); }); }
    if (op == "append_bytes") { sc.num(); Wide w(sc.list()); Heap h; a->Append(w.p()); return true; }
    if (op == "append_self") { Heap h; a->Append(*a); return true; }
    if (op == "append_other") { const C &u = *slot[sc.num() - 1]; Heap h; a->Append(u); return true; }
    const C &c = *a;
    if (op == "cmp") { ret.push_back(c == *slot[sc.num() - 1]); return true; }
    if (op == "runes") { il::int_t i = 0; while (i < c.size() && ret.size() < 10000) { ret.push_back(c.rune(i)); i = c.nextRune(i); } return true; }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
  }
  static const void *data(const C &c) { return c.data(); }
};

template <typename K>
void drive(Script &sc) {
  typedef typename K::C C;
  std::unique_ptr<C> slot[3];
  reg().reset(); g_blocks = 0;
  while (sc.next()) {
    if (sc.line == "E") break;
    const std::string op = sc.str();
    const int s = static_cast<int>(sc.num()) - 1;
    std::unique_ptr<C> &a = slot[s];
    Vec ret;
    const void *old[3]; long cap[3];
    for (int k = 0; k < 3; ++k) { old[k] = slot[k] ? K::data(*slot[k]) : nullptr; cap[k] = slot[k] ? slot[k]->capacity() : 0; }
    bool ok = true;
    const bool repl = op == "copy_assign" || op == "move_assign" || op == "assign_lit";
    if (op == "new_copy") { const C &u = *slot[sc.num() - 1]; Heap h; a.reset(new C(u)); }
    else if (op == "new_move") { int t = sc.num() - 1; { Heap h; a.reset(new C(std::move(*slot[t]))); } old[t] = nullptr; }
    else if (op == "copy_assign") { const C &u = *slot[sc.num() - 1]; Heap h; *a = u; }
    else if (op == "move_assign") { int t = sc.num() - 1; { Heap h; *a = std::move(*slot[t]); } old[t] = nullptr; }
    else if (op == "destroy") { Heap h; a.reset(); }
    else ok = K::op(op, sc, slot, s, ret);
    if (repl || op == "reserve") old[s] = nullptr;
    if (!ok) ret.clear();
    std::vector<std::string> o;
    for (int k = 0; k < 3; ++k) o.push_back(slot[k] ? K::obs(*slot[k], old[k], cap[k]) : K::none());
    Json j;
    j.str("st", ok ? "ok" : "abort").list("r", ret).rawlist("obs", o).i("faults", 0).emit();
  }
  { Heap h; for (int k = 0; k < 3; ++k) slot[k].reset(); }
  Json j;
  j.i("faults", 0).i("blocks", g_blocks).emit();
}

void codec(Script &sc) {
  while (sc.next()) {
    if (sc.line == "E") break;
    const std::string op = sc.str();
    Json j; j.str("st", "ok");
    if (op == "enc") {
      long lo = sc.num(), n = sc.num(); Vec e8, e16, d8, d16;
      il::String a{}; il::UTF16String b{};
      for (long u = lo; u < lo + n; ++u) { a.Append(static_cast<int>(u)); b.Append(static_cast<int>(u)); }
      push(e8, a.data(), a.size());
      for (long k = 0; k < b.size(); ++k) e16.push_back(b.data()[k]);
      il::StringView w(a);
      for (il::int_t i = 0; i < w.size(); i = w.nextRune(i)) d8.push_back(w.rune(i));
      for (il::int_t i = 0; i < b.size(); i = b.nextRune(i)) d16.push_back(b.rune(i));
      j.list("e8", e8).list("e16", e16).list("d8", d8).list("d16", d16);
    } else if (op == "isrune") {
      Vec x = sc.list(), r; for (long u : x) r.push_back(il::isRune(static_cast<int>(u)));
      j.list("r", r);
    } else if (op == "valid") {
      Vec x = sc.list(), r; Buf b(x), z(x, true);
      r.push_back(il::isUtf8(b.p, b.n)); r.push_back(il::isUtf8(z.p)); r.push_back(il::isAscii(b.p, b.n)); r.push_back(il::isAscii(z.p));
      j.list("r", r);
    } else if (op == "valids") {
      Vec x = sc.list(), r; x.push_back(0);
      for (long c = 0; c < 256; ++c) { x.back() = c; Buf b(x); r.push_back(il::isUtf8(b.p, b.n)); }
      j.list("r", r);
    } else if (op == "to16") {
      Vec x = sc.list(), r, back; Buf b(x); il::UTF16String u(il::toUtf16(il::String(il::StringType::Utf8, b.p, b.n)));
      for (long k = 0; k < u.size(); ++k) r.push_back(u.data()[k]);
      il::String s(il::toUtf8(u)); push(back, s.data(), s.size());
      j.list("r", r).list("back", back);
    } else if (op == "to8") {
      Vec x = sc.list(), r, back; U16::Wide b(x); il::String s(il::toUtf8(il::UTF16String(b.p()))); push(r, s.data(), s.size());
      il::UTF16String u(il::toUtf16(s)); for (long k = 0; k < u.size(); ++k) back.push_back(u.data()[k]);
      j.list("r", r).list("back", back);
    } else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
    j.emit();
  }
  Json j; j.i("faults", 0).i("blocks", 0).emit();
}

int main() {
  heap_init();
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    sc.str();
    const std::string k = sc.str();
    if (k == "utf8") drive<U8>(sc); else if (k == "utf16") drive<U16>(sc); else codec(sc);
  }
}
