// Images.  Header: S <mode>
#include "dyn.h"
#include <il/io/ppm/ppm.h>
using namespace vf;
static std::string outcome(il::Status &st) { return st.Ok() ? std::string("ok") : (st.error(), std::string("error")); }
int main() {
  char t[] = "./vf_ppm_XXXXXX"; const std::string dir = mkdtemp(t);
  Script sc; long base = 0; const std::string p = dir + "/an image";
  while (sc.next()) {
    const std::string op = sc.str();
    if (op == "Q") break;
    if (op == "S") { unlink(p.c_str()); base = fds(); continue; }
    if (op == "E") { Json().i("fds", fds() - base).emit(); continue; }
    std::string st = "abort"; long w = -1, h = -1; std::vector<long> doc, px;
    if (op == "load") { doc = sc.list(); put(p, doc); } else unlink(p.c_str());
    guarded([&] {
      il::Status s{}; const il::Array2D<il::Pixel> a = il::readPpm(p, il::io, s);
      st = outcome(s);
      if (st == "ok") {
        w = a.size(0); h = a.size(1);
        if (w * h <= 100000) for (long i = 0; i < w; ++i) for (long j = 0; j < h; ++j) { const il::Pixel x = a(i, j); px.push_back(x.red); px.push_back(x.green); px.push_back(x.blue); }
      }
    });
    Json().str("st", st).i("w", w).i("h", h).raw("px", list(px)).b("same", op != "load" || bytes(p) == doc).i("fds", fds() - base).emit();
  }
  unlink(p.c_str()); rmdir(dir.c_str());
  return 0;
}
