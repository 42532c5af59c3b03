// il::Info and il::Status driven by scripts.  Header: S <info|status> <mode>
#include "vf.h"
#include <il/Status.h>
using namespace vf;
static const std::string kKeys[] = {"a", "ab", "abc", "", "b", "\xc3\xa9", std::string(30, 'k'), "source_file", "source_line"};
static const int kNb = 9;
static std::vector<long> limbs(const void *p, size_t n) {
  std::vector<long> o; const unsigned char *b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i += 2) o.push_back(b[i] | (b[i + 1] << 8));
  return o;
}
template <typename T> static T unlimb(const std::vector<long> &n) {
  unsigned char b[sizeof(T)]; for (size_t i = 0; i < n.size(); ++i) { b[2 * i] = n[i] & 255; b[2 * i + 1] = (n[i] >> 8) & 255; }
  T x; memcpy(&x, b, sizeof(T)); return x;
}
static std::string text(const std::vector<long> &n) { std::string s; for (long x : n) s += static_cast<char>(x); return s; }
// the entries of an object copied to the exact size, so that reading outside shows
struct Cstr { std::unique_ptr<char[]> p; explicit Cstr(const std::string &s) { NoHeap g; p.reset(new char[s.size() + 1]); memcpy(p.get(), s.c_str(), s.size() + 1); } ~Cstr() { NoHeap g; p.reset(); } };
static void put(il::Info &i, const char *k, const std::string &ty, const std::vector<long> &n) {
  if (ty == "bool") { Heap h; i.Set(k, n[0] != 0); }
  else if (ty == "int") { il::int_t x = unlimb<il::int_t>(n); Heap h; if (x >= INT_MIN && x <= INT_MAX && x % 2) i.Set(k, static_cast<int>(x)); else i.Set(k, x); }
  else if (ty == "f64") { double x = unlimb<double>(n); Heap h; i.Set(k, x); }
  else { Cstr v(text(n)); Heap h; i.Set(k, static_cast<const char *>(v.p.get())); }
}
static void put(il::Status &i, const char *k, const std::string &ty, const std::vector<long> &n) {
  if (ty == "int") { il::int_t x = unlimb<il::int_t>(n); Heap h; if (x >= INT_MIN && x <= INT_MAX && x % 2) i.SetInfo(k, static_cast<int>(x)); else i.SetInfo(k, x); }
  else if (ty == "f64") { double x = unlimb<double>(n); Heap h; i.SetInfo(k, x); }
  else { Cstr v(text(n)); Heap h; i.SetInfo(k, static_cast<const char *>(v.p.get())); }
}
static bool getb(const il::Info &c, const char *k) { return c.toBool(k); }
static bool getb(const il::Status &, const char *) { throw il::AbortException{}; }
template <typename C> static void get(const C &c, const char *k, const std::string &ty, std::vector<long> &o) {
  if (ty == "bool") o.push_back(getb(c, k));
  else if (ty == "int") { il::int_t x = c.toInteger(k); o = limbs(&x, 8); }
  else if (ty == "f64") { double x = c.toDouble(k); o = limbs(&x, 8); }
  else { const char *p = c.asCString(k); for (; *p; ++p) o.push_back(static_cast<unsigned char>(*p)); }
}
static std::string entry(const std::string &t, const std::vector<long> &n) { Json j; return j.str("t", t).list("n", n).end(); }
static std::vector<std::string> empty_table() { return std::vector<std::string>(kNb, entry("none", std::vector<long>())); }
static std::vector<std::string> table(const il::Info &c) {
  std::vector<std::string> o;
  for (int k = 0; k < kNb; ++k) {
    Cstr key(kKeys[k]); const char *p = key.p.get(); std::vector<long> n;
    const il::int_t i = c.search(p);
    if (!c.found(i)) { o.push_back(entry("none", n)); continue; }
    const int kind = c.isBool(i) * 1 + c.isInteger(i) * 2 + c.isDouble(i) * 4 + c.isString(i) * 8;
    std::string t = kind == 1 ? "bool" : kind == 2 ? "int" : kind == 4 ? "f64" : kind == 8 ? "str" : "?";
    if (t != "?") get(c, p, t, n);
    std::vector<long> m;
    if (t == "bool") m.push_back(c.toBool(i));
    if (t == "int") { il::int_t x = c.toInteger(i); m = limbs(&x, 8); }
    if (t == "f64") { double x = c.toDouble(i); m = limbs(&x, 8); }
    if (t == "str") { const char *q = c.asCString(i); for (; *q; ++q) m.push_back(static_cast<unsigned char>(*q)); }
    if (m != n) t = "differs";
    o.push_back(entry(t, n));
  }
  return o;
}
// in checked builds the entries of a status are found by trying the three types
static std::vector<std::string> table(const il::Status &c) {
  std::vector<std::string> o; const char *ts[] = {"int", "f64", "str"};
  for (int k = 0; k < kNb; ++k) {
    std::string t = "none"; std::vector<long> n;
    Cstr key(kKeys[k]);
    for (int j = 0; j < 3; ++j) { std::vector<long> m; if (guarded([&] { get(c, key.p.get(), ts[j], m); })) { t = t == "none" ? ts[j] : "several"; n = m; } }
    o.push_back(entry(t, n));
  }
  return o;
}
struct InfoRun {
  typedef il::Info C;
  static bool op(const std::string &op, Script &sc, std::unique_ptr<C> *slot, int s, std::vector<long> &ret, bool) {
    std::unique_ptr<C> &a = slot[s];
    if (op == "new") { Heap h; a.reset(new C{}); return true; }
    if (op == "destroy") { Heap h; a.reset(); return true; }
    if (op == "clear") { Heap h; a->clear(); return true; }
    if (op == "new_copy") { C &t = *slot[sc.num() - 1]; Heap h; a.reset(new C(static_cast<const C &>(t))); return true; }
    if (op == "new_move") { C &t = *slot[sc.num() - 1]; Heap h; a.reset(new C(std::move(t))); return true; }
    if (op == "copy_assign") { C &t = *slot[sc.num() - 1]; Heap h; *a = static_cast<const C &>(t); return true; }
    if (op == "move_assign") { C &t = *slot[sc.num() - 1]; Heap h; *a = std::move(t); return true; }
    if (op == "set") { Cstr k(kKeys[sc.num() - 1]); const std::string ty = sc.str(); put(*a, k.p.get(), ty, sc.list()); return true; }
    if (op == "set_own") { Cstr k(kKeys[sc.num() - 1]); Cstr k2(kKeys[sc.num() - 1]); Heap h; a->Set(k.p.get(), a->asCString(k2.p.get())); return true; }
    if (op == "set_named") { Cstr k2(kKeys[sc.num() - 1]); const std::string ty = sc.str(); put(*a, a->asCString(k2.p.get()), ty, sc.list()); return true; }
    if (op == "get") { Cstr k(kKeys[sc.num() - 1]); const std::string ty = sc.str(); return guarded([&] { get(static_cast<const C &>(*a), k.p.get(), ty, ret); }); }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
  }
  static void settle(C &) {}
};
struct StatusRun {
  typedef il::Status C;
  static bool op(const std::string &op, Script &sc, std::unique_ptr<C> *slot, int s, std::vector<long> &ret, bool) {
    std::unique_ptr<C> &a = slot[s];
    if (op == "new") { Heap h; a.reset(new C{}); return true; }
    if (op == "new_move") { C &t = *slot[sc.num() - 1]; Heap h; a.reset(new C(std::move(t))); return true; }
    if (op == "move_assign") { C &t = *slot[sc.num() - 1]; Heap h; return guarded([&] { *a = std::move(t); }); }
    if (op == "set_ok") { return guarded([&] { a->SetOk(); }); }
    if (op == "set_error") { il::Error e = static_cast<il::Error>(sc.num()); Heap h; return guarded([&] { a->SetError(e); }); }
    if (op == "set") { Cstr k(kKeys[sc.num() - 1]); const std::string ty = sc.str(); const std::vector<long> n = sc.list(); Heap h; return guarded([&] { put(*a, k.p.get(), ty, n); }); }
    if (op == "source") { Cstr f(text(sc.list())); const il::int_t line = sc.num(); Heap h; return guarded([&] { a->setSource(f.p.get(), line); }); }
    if (op == "get") { Cstr k(kKeys[sc.num() - 1]); const std::string ty = sc.str(); return guarded([&] { get(static_cast<const C &>(*a), k.p.get(), ty, ret); }); }
    if (op == "rearm") return guarded([&] { a->Rearm(); });
    if (op == "ok") return guarded([&] { ret.push_back(a->Ok()); });
    if (op == "ignore") return guarded([&] { a->IgnoreError(); });
    if (op == "abort_on_error") {
      bool stop = dies([&] { a->AbortOnError(); });
      bool ok = true;
      if (!stop) { ok = guarded([&] { a->AbortOnError(); }); }
      else { C *p = a.get(); bool armed = !guarded([&] { p->error(); }); if (!armed && checked()) { ok = guarded([&] { a->AbortOnError(); }); } }
      if (ok) ret.push_back(stop);
      return ok;
    }
    if (op == "error") return guarded([&] { ret.push_back(static_cast<long>(a->error())); ret.push_back(static_cast<long>(a->domain())); });
    if (op == "drop") {
      C *p = a.get(); const bool stop = dies([&] { delete p; });
      ret.push_back(stop); if (!stop) { Heap h; a.reset(); }
      return true;
    }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
  }
  static bool &checked() { static bool c = false; return c; }
  static void settle(C &c) { guarded([&] { c.IgnoreError(); }); }
};
static std::string show(il::Info &c, bool) { Json j; return j.b("on", true).b("empty", c.isEmpty()).rawlist("tab", table(c)).b("chk", false).i("err", 0).i("dom", 0).end(); }
static std::string show(il::Status &c, bool checked) {
  long err = 0, dom = 0; bool chk = false;
  if (checked) { chk = !guarded([&] { err = static_cast<long>(c.error()); }); if (!chk) dom = static_cast<long>(c.domain()); }
  else { err = static_cast<long>(c.error()); dom = static_cast<long>(c.domain()); }
  Json j; return j.b("on", true).b("empty", false).rawlist("tab", checked ? table(c) : empty_table()).b("chk", chk).i("err", err).i("dom", dom).end();
}
template <typename R> static void all(Script &sc, const std::string &mode) {
  typedef typename R::C C;
  const int N = 3; std::unique_ptr<C> slot[N];
  reg().reset(); g_blocks = 0;
  const bool checked = mode == "checked"; StatusRun::checked() = checked;
  while (sc.next()) {
    const std::string op = sc.str();
    if (op == "E") break;
    const int s = sc.num() - 1;
    std::vector<long> ret;
    const bool ok = R::op(op, sc, slot, s, ret, checked);
    std::vector<std::string> ob;
    for (int k = 0; k < N; ++k) {
      if (slot[k]) ob.push_back(show(*slot[k], checked));
      else { Json j; ob.push_back(j.b("on", false).b("empty", true).rawlist("tab", empty_table()).b("chk", false).i("err", 0).i("dom", 0).end()); }
    }
    Json j; j.str("st", ok ? "ok" : "abort").list("r", ret).rawlist("obs", ob).i("live", 0).i("faults", reg().faults); j.emit();
  }
  for (int k = 0; k < N; ++k) if (slot[k]) { Heap h; R::settle(*slot[k]); slot[k].reset(); }
  Json j; j.i("live", 0).i("faults", reg().faults).i("blocks", g_blocks); j.emit();
}
int main() {
  heap_init();
  Script sc;
  while (sc.next()) {
    if (sc.line == "Q") break;
    sc.str(); const std::string kind = sc.str(); const std::string mode = sc.str();
    if (kind == "info") all<InfoRun>(sc, mode); else all<StatusRun>(sc, mode);
  }
  return 0;
}
