// TOML documents loaded, and maps saved and loaded back.  Header: S <mode>
#include "dyn.h"
#include <il/io/toml/toml.h>
using namespace vf;
static std::string outcome(il::Status &st) { return st.Ok() ? std::string("ok") : (st.error(), std::string("error")); }
static il::String ilname(const std::string &p) { return il::String(il::StringType::Byte, p.data(), p.size()); }
template <typename M> static std::string save(const Node &v, const std::string &p) {
  il::Status st{};
  M m = table<M>(v);
  il::save(m, ilname(p), il::io, st);
  return outcome(st);
}
static std::string load(const std::string &p, std::string &o, bool decimal, std::string *bits = 0) {
  il::Status st{};
  D d(il::load<Ma>(ilname(p), il::io, st));
  const std::string r = outcome(st);
  o = r == "ok" ? show(d, decimal) : node("void");
  if (bits && r == "ok") *bits = show(d, false);
  return r;
}
int main() {
  char t[] = "./vf_toml_XXXXXX";
  const std::string dir = mkdtemp(t), file = dir + "/x.toml", full = dir + "/full.toml";
  if (symlink("/dev/full", full.c_str()) != 0) return 3;
  Script sc;
  long base = 0;
  while (sc.next()) {
    const std::string op = sc.str();
    if (op == "Q") break;
    if (op == "S") { unlink(file.c_str()); base = fds(); continue; }
    if (op == "E") { Json().i("fds", fds() - base).emit(); continue; }
    Json j;
    std::string st, o = node("void");
    if (op == "doc") {
      put(file, sc.list());
      if (!guarded([&] { st = load(file, o, true); })) { st = "abort"; o = node("void"); }
      j.str("st", st).raw("o", o);
    } else if (op == "trip") {      // where: 0 = a file, 1 = a directory that does not exist, 2 = a device on which writes fail
      const long where = sc.num(); const Node v = parse(sc);
      const std::string p = where == 0 ? file : where == 1 ? dir + "/nodir/x.toml" : full;
      std::string ss, ls = "none", od = node("void");
      if (!guarded([&] { ss = v.t == "map" ? save<Mp>(v, p) : save<Ma>(v, p); })) ss = "abort";
      if (ss == "ok" && where == 0 && !guarded([&] { ls = load(p, od, true, &o); })) { ls = "abort"; o = od = node("void"); }
      j.str("save", ss).str("load", ls).raw("o", o).raw("od", od).list("b", ss == "ok" && where == 0 ? bytes(file) : std::vector<long>());
    } else if (op == "missing") {
      unlink(file.c_str());
      if (!guarded([&] { st = load(file, o, true); })) st = "abort";
      j.str("st", st);
    } else return 3;
    j.i("fds", fds() - base);
    j.emit();
  }
  unlink(file.c_str()); unlink(full.c_str()); rmdir(dir.c_str());
  return 0;
}
