// Formats chosen by names.  Header: S <mode>
#include "dyn.h"
#include <il/io/toml/toml.h>
#include <il/io/numpy/numpy.h>
#include <il/io/filepack/filepack.h>
using namespace vf;
typedef il::Array<double> Vd;
typedef il::Array2D<double> Md;
template <typename M> static M tab(long v) {
  M m{}; Arr a{}; a.Append(D(il::int_t(v))); a.Append(D(il::int_t(7)));
  m.Set(il::String("a"), D(il::int_t(v))); m.Set(il::String("text"), D(il::String("some text that is longer than what is kept inside"))); m.Set(il::String("x"), D(v + 0.5));
  return m;
}
template <typename T> struct Val;
template <> struct Val<Ma> { static Ma make(long v) { return tab<Ma>(v); } };
template <> struct Val<Mp> { static Mp make(long v) { return tab<Mp>(v); } };
template <> struct Val<Vd> { static Vd make(long v) { Vd a{}; a.Append(v); a.Append(2.5 * v); a.Append(-1); return a; } };
template <> struct Val<Md> { static Md make(long v) { Md a{2, 3}; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) a(i, j) = v + 10 * i + j; return a; } };
template <> struct Val<int> { static int make(long v) { return static_cast<int>(v); } };
template <typename M> static long table_is(const M &m) {
  if (m.nbElements() != 3) return -1;
  const il::spot_t a = m.search("a"), t = m.search("text"), x = m.search("x");
  if (!m.found(a) || !m.found(t) || !m.found(x)) return -1;
  if (!m.value(a).template is<il::int_t>() || !m.value(x).template is<double>() || !m.value(t).template is<il::String>()) return -1;
  const long v = m.value(a).template to<il::int_t>();
  return m.value(x).template to<double>() == v + 0.5 && m.value(t).template as<il::String>() == "some text that is longer than what is kept inside" ? v : -1;
}
static long is(const Ma &m) { return table_is(m); }
static long is(const Mp &m) { return table_is(m); }
static long is(const Vd &a) { return a.size() == 3 && a[1] == 2.5 * a[0] && a[2] == -1 ? static_cast<long>(a[0]) : -1; }
static long is(const Md &a) {
  if (a.size(0) != 2 || a.size(1) != 3) return -1;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (a(i, j) != a(0, 0) + 10 * i + j) return -1;
  return static_cast<long>(a(0, 0));
}
static long is(int x) { return x; }
static std::string outcome(il::Status &st) { return st.Ok() ? std::string("ok") : (st.error(), std::string("error")); }
template <typename T> static std::string work(const std::string &op, const std::string &p, long x, bool second, long &got) {
  il::Status st{}; const il::String name(il::StringType::Byte, p.data(), p.size());
  if (op == "save") { const T v = Val<T>::make(x); il::save(v, name, il::io, st); return outcome(st); }
  if (op == "opts") { const T v = Val<T>::make(x); il::Array<il::String> o{}; if (second) o.Append(il::String("other")); il::save(v, o, name, il::io, st); return outcome(st); }
  const T v = second ? il::load<T>(p, il::io, st) : il::load<T>(name, il::io, st);
  const std::string r = outcome(st); if (r == "ok") got = is(v);
  return r;
}
static std::vector<std::string> files(const std::string &dir) {
  std::vector<std::string> v; DIR *d = opendir(dir.c_str());
  while (dirent *e = readdir(d)) { const std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
  closedir(d); return v;
}
static std::string name(Script &sc) { std::string s; for (long x : sc.list()) s += static_cast<char>(x); return s; }
int main() {
  char t[] = "./vf_fmt_XXXXXX"; const std::string dir = mkdtemp(t);
  Script sc; long base = 0, n = 0;
  auto clear = [&] { for (const std::string &f : files(dir)) unlink((dir + "/" + f).c_str()); };
  auto all = [&] { std::map<std::string, std::vector<long>> m; for (const std::string &f : files(dir)) m[f] = bytes(dir + "/" + f); return m; };
  while (sc.next()) {
    const std::string op = sc.str();
    if (op == "Q") break;
    if (op == "S") { clear(); base = fds(); continue; }
    if (op == "E") { Json().i("fds", fds() - base).emit(); continue; }
    ++n; long got = 0; std::string st = "ok"; const auto before = all();
    if (op == "copy") { const std::string a = name(sc), b = name(sc); if (before.count(a)) put(dir + "/" + b, bytes(dir + "/" + a)); }
    else if (op == "junk") { const std::string a = name(sc); put(dir + "/" + a, {1, 0, 255, 60, 61}); }
    else {
      const std::string ty = sc.str(), p = dir + "/" + name(sc); const long x = op == "load" ? 0 : sc.num();
      if (!guarded([&] {
        if (ty == "marr") st = work<Ma>(op, p, x, n % 2, got); else if (ty == "map") st = work<Mp>(op, p, x, n % 2, got); else if (ty == "arr") st = work<Vd>(op, p, x, n % 2, got);
        else if (ty == "mat") st = work<Md>(op, p, x, n % 2, got); else st = work<int>(op, p, x, n % 2, got);
      })) st = "abort";
    }
    std::vector<std::string> fs; for (const std::string &f : files(dir)) { std::vector<long> b; for (char c : f) b.push_back(static_cast<unsigned char>(c)); fs.push_back(list(b)); }
    Json().str("st", st).i("got", got).rawlist("files", fs).b("same", before == all()).i("fds", fds() - base).emit();
  }
  clear(); rmdir(dir.c_str());
  return 0;
}
