// Maps saved in binary files and loaded back.  Header: S <mode>
#include "dyn.h"
#include <iostream>
#include <il/io/filepack/filepack.h>
using namespace vf;
static std::string outcome(il::Status &st) { return st.Ok() ? std::string("ok") : (st.error(), std::string("error")); }
static il::String ilname(const std::string &p) { return il::String(il::StringType::Byte, p.data(), p.size()); }
static std::string save(const Ma &m, const std::vector<std::vector<long>> &opt, const std::string &p) {
  il::Status st{};
  if (opt.empty()) { il::save(m, ilname(p), il::io, st); return outcome(st); }
  il::Array<il::String> o{};
  for (const auto &k : opt) o.Append(str(k));
  il::save(m, o, ilname(p), il::io, st);
  return outcome(st);
}
template <typename M> static std::string load(const std::string &p, std::string *o) {
  il::Status st{};
  D d(il::load<M>(ilname(p), il::io, st));
  const std::string r = outcome(st);
  if (o) *o = r == "ok" ? show(d, false) : node("void");
  return r;
}
int main() {
  char t[] = "./vf_pack_XXXXXX";
  const std::string dir = mkdtemp(t), file = dir + "/x.data", full = dir + "/full.data";
  if (symlink("/dev/full", full.c_str()) != 0) return 3;
  Script sc;
  long base = 0;
  while (sc.next()) {
    const std::string op = sc.str();
    if (op == "Q") break;
    if (op == "S") { unlink(file.c_str()); base = fds(); continue; }
    if (op == "E") { Json().i("fds", fds() - base).emit(); continue; }
    Json j;
    if (op == "trip") {      // where: 0 = a file, 1 = a directory that does not exist, 2 = a device on which writes fail
      const long where = sc.num(); std::vector<std::vector<long>> opt; const long m = sc.num();
      for (long i = 0; i < m; ++i) opt.push_back(sc.list());
      const Node v = parse(sc);
      const std::string p = where == 0 ? file : where == 1 ? dir + "/nodir/x.data" : full;
      std::string ss, ls = "none", lm = "none", o = node("void"), om = node("void");
      std::vector<long> cut;
      if (!guarded([&] { ss = save(table<Ma>(v), opt, p); })) ss = "abort";
      if (ss == "ok" && where == 0) {
        if (!guarded([&] { ls = load<Ma>(p, &o); })) { ls = "abort"; o = node("void"); }
        if (!guarded([&] { lm = load<Mp>(p, &om); })) { lm = "abort"; om = node("void"); }
        const std::vector<long> b = bytes(p);
        const size_t step = b.size() > 60 ? b.size() / 40 : 1;
        for (size_t n = 0; n < b.size(); n += step) {
          put(p, std::vector<long>(b.begin(), b.begin() + n));
          std::string r;
          if (!guarded([&] { r = n % 2 ? load<Ma>(p, 0) : load<Mp>(p, 0); })) r = "abort";
          if (r != "error") cut.push_back(static_cast<long>(n));
        }
        put(p, b);
      }
      j.str("save", ss).str("load", ls).str("loadm", lm).raw("o", o).raw("om", om).list("short", cut);
    } else if (op == "missing") {
      unlink(file.c_str()); std::string st;
      if (!guarded([&] { st = load<Ma>(file, 0); if (st != load<Mp>(file, 0)) st = "differs"; })) st = "abort";
      j.str("st", st);
    } else return 3;
    j.i("fds", fds() - base);
    j.emit();
  }
  unlink(file.c_str()); unlink(full.c_str()); rmdir(dir.c_str());
  return 0;
}
