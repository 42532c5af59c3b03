// Binary files.  Header: S <mode>
#include "dyn.h"
#include <il/File.h>
using namespace vf;
template <long w> struct Item { unsigned char b[w]; };
template <il::int_t n> static bool fixed(il::File &f, long w, void *p, il::Status &st) {
  if (w == 1) f.Read<n>(il::io, static_cast<Item<1> *>(p), st);
  else if (w == 2) f.Read<n>(il::io, static_cast<Item<2> *>(p), st);
  else if (w == 3) f.Read<n>(il::io, static_cast<Item<3> *>(p), st);
  else if (w == 8) f.Read<n>(il::io, static_cast<Item<8> *>(p), st);
  else return false;
  return true;
}
int main() {
  char t[] = "./vf_file_XXXXXX";
  const std::string dir = mkdtemp(t);
  const std::string place[4] = {dir + "/a", dir + "/donn\xc3\xa9""es of the second file, with a long name.bin", dir + "/nodir/x.data", dir + "/full.data"};
  if (symlink("/dev/full", place[3].c_str()) != 0) return 3;
  Script sc; std::unique_ptr<il::File> f[2]; bool open[2] = {false, false}; long base = 0;
  while (sc.next()) {
    const std::string op = sc.str();
    if (op == "Q") break;
    if (op == "S") { unlink(place[0].c_str()); unlink(place[1].c_str()); base = fds(); continue; }
    if (op == "E") {
      for (int s = 0; s < 2; ++s) if (open[s]) { il::Status st{}; f[s]->Close(il::io, st); if (!st.Ok()) st.error(); open[s] = false; }
      f[0].reset(); f[1].reset();
      Json().i("fds", fds() - base).emit(); continue;
    }
    std::string st = "ok"; std::vector<long> got; il::Status status{}; bool asked = true;
    if (op == "put") { const std::string &p = place[sc.num() - 1]; put(p, sc.list()); asked = false; }
    else if (op == "gone") { unlink(place[sc.num() - 1].c_str()); asked = false; }
    else if (op == "look") {
      const std::string &p = place[sc.num() - 1]; asked = false;
      if (access(p.c_str(), F_OK) == 0) got = bytes(p); else st = "error";
    } else {
      const int s = static_cast<int>(sc.num()) - 1;
      if (op == "drop") {
        asked = false;
        if (open[s]) { if (dies([&] { f[s].reset(); })) st = "abort"; }
        else f[s].reset();
      } else if (!guarded([&] {
        if (op == "open") {
          const std::string &p = place[sc.num() - 1], mode = sc.str(); const long size = sc.num();
          const il::FileMode m = mode == "r" ? il::FileMode::Read : il::FileMode::Write;
          const il::String name(il::StringType::Byte, p.data(), p.size());
          // what an object finds in its memory does not matter
          void *room = ::operator new(sizeof(il::File)); memset(room, 0x5a, sizeof(il::File));
          f[s].reset(size < 0 ? new (room) il::File(name, m, il::io, status) : new (room) il::File(name, m, size, il::io, status));
        } else if (op == "read") {
          const long n = sc.num(), w = sc.num(), tpl = sc.num(), m = n > 0 && w > 0 ? n * w : 0;
          std::unique_ptr<unsigned char[]> to(new unsigned char[m]); memset(to.get(), 0xee, m);
          if (tpl) { if (!(n == 0 ? fixed<0>(*f[s], w, to.get(), status) : n == 1 ? fixed<1>(*f[s], w, to.get(), status) : n == 2 ? fixed<2>(*f[s], w, to.get(), status) : fixed<3>(*f[s], w, to.get(), status))) exit(3); }
          else f[s]->Read(n, static_cast<std::size_t>(w), il::io, to.get(), status);
          got.assign(to.get(), to.get() + m);
        } else if (op == "skip") f[s]->Skip(static_cast<std::size_t>(sc.num()), il::io, status);
        else if (op == "write") {
          const long n = sc.num(), w = sc.num(); const std::vector<long> b = sc.list(); const std::vector<unsigned char> from(b.begin(), b.end());
          f[s]->Write(from.data(), n, static_cast<std::size_t>(w), il::io, status);
        } else if (op == "close") { f[s]->Close(il::io, status); }
        else exit(3);
      })) { st = "abort"; asked = false; }
      if (asked) {
        st = status.Ok() ? "ok" : (status.error(), "error");
        if (op == "open") open[s] = st == "ok";
        if (op == "close") open[s] = false;
      } else if (st == "abort" && op != "drop" && op != "open") { /* nothing is set */ }
    }
    if (st != "ok") got.clear();
    Json().str("st", st).list("got", got).i("fds", fds() - base).emit();
  }
  for (int i = 0; i < 4; ++i) unlink(place[i].c_str());
  rmdir(dir.c_str());
  return 0;
}
