// il::save / il::load through the .npy format.  Header: S <mode>
// Places: 1, 2 = files in the scratch directory, 3 = a name with an unknown extension,
// 4 = in a directory that does not exist, 5 = a device on which every write fails.
#include "vf.h"
#include <dirent.h>
#include <sys/stat.h>
#include <fstream>
#include <iterator>
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/SparseMatrixCSR.h>
#include <il/io/numpy/numpy.h>
using namespace vf;

static std::string dir;
static const char *kNames[] = {"", "a.npy", "b.npy", "c.dat", "nodir/d.npy", "full.npy"};
static std::string path(long s) { return dir + "/" + kNames[s]; }
static std::vector<long> bytes(const std::string &p) {
  std::ifstream f(p.c_str(), std::ios::binary);
  std::vector<long> o;
  std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  for (char c : t) o.push_back(static_cast<unsigned char>(c));
  return o;
}
static void put(const std::string &p, const std::vector<long> &b) {
  std::ofstream f(p.c_str(), std::ios::binary | std::ios::trunc);
  for (long x : b) f.put(static_cast<char>(x));
}
static void wipe(long s) { const std::string p = path(s); unlink(p.c_str()); rmdir(p.c_str()); }
static long fds() {
  long n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
static std::string name(il::Error e) {
  switch (e) {
    case il::Error::FilesystemFileNotFound: return "FilesystemFileNotFound";
    case il::Error::FilesystemCanNotWriteToFile: return "FilesystemCanNotWriteToFile";
    case il::Error::FilesystemCanNotCloseFile: return "FilesystemCanNotCloseFile";
    case il::Error::BinaryFileWrongFormat: return "BinaryFileWrongFormat";
    case il::Error::BinaryFileWrongType: return "BinaryFileWrongType";
    case il::Error::BinaryFileWrongRank: return "BinaryFileWrongRank";
    case il::Error::BinaryFileWrongEndianness: return "BinaryFileWrongEndianness";
    case il::Error::Undefined: return "Undefined";
    case il::Error::Unimplemented: return "Unimplemented";
    default: return "other";
  }
}
static std::string outcome(il::Status &st) { return st.Ok() ? std::string("ok") : name(st.error()); }
static il::String ilname(const std::string &p) { return il::String(il::StringType::Byte, p.data(), p.size()); }

template <typename T> static T elem(const std::vector<long> &d, size_t k) {
  unsigned char b[sizeof(T)]; T x;
  for (size_t i = 0; i < sizeof(T); ++i) b[i] = static_cast<unsigned char>(d[k * sizeof(T) + i]);
  memcpy(&x, b, sizeof(T));
  return x;
}
template <typename T> static void out(std::vector<long> &o, const T &x) {
  unsigned char b[sizeof(T)]; memcpy(b, &x, sizeof(T));
  for (size_t i = 0; i < sizeof(T); ++i) o.push_back(b[i]);
}
template <typename T> static void dump(const il::Array<T> &v, std::vector<long> &d, std::vector<long> &o) {
  d.push_back(v.size());
  for (il::int_t i = 0; i < v.size(); ++i) out(o, v[i]);
}
template <typename T> static void dump(const il::Array2D<T> &v, std::vector<long> &d, std::vector<long> &o) {
  d.push_back(v.size(0)); d.push_back(v.size(1));
  for (il::int_t j = 0; j < v.size(1); ++j) for (il::int_t i = 0; i < v.size(0); ++i) out(o, v(i, j));
}
typedef il::SparseMatrixCSR<il::int_t, double> Csr;
static void dump(const Csr &v, std::vector<long> &, std::vector<long> &o) { for (il::int_t k = 0; k < v.nbNonZeros(); ++k) o.push_back(0); }
template <typename V> static std::string save(const V &v, const std::string &p, long api) {
  il::Status st{};
  if (api) il::save(v, ilname(p), il::io, st); else { il::String s = ilname(p); il::SaveHelper<V>::save(v, s, il::io, st); }
  return outcome(st);
}
template <typename T> static std::string save1(const std::vector<long> &dims, const std::vector<long> &cap, const std::vector<long> &d, const std::string &p, long api) {
  il::Array<T> v{dims[0]};
  for (il::int_t i = 0; i < v.size(); ++i) v[i] = elem<T>(d, i);
  if (!cap.empty()) v.Reserve(cap[0]);
  return save(v, p, api);
}
template <typename T> static std::string save2(const std::vector<long> &dims, const std::vector<long> &cap, const std::vector<long> &d, const std::string &p, long api) {
  il::Array2D<T> v{dims[0], dims[1]};
  for (il::int_t j = 0; j < v.size(1); ++j) for (il::int_t i = 0; i < v.size(0); ++i) v(i, j) = elem<T>(d, j * dims[0] + i);
  if (!cap.empty()) v.Reserve(cap[0], cap[1]);
  return save(v, p, api);
}
template <typename V> static std::string load(const std::string &p, long api, std::vector<long> &dims, std::vector<long> &d) {
  il::Status st{};
  V v = api == 1 ? il::load<V>(ilname(p), il::io, st) : il::load<V>(std::string(p), il::io, st);
  const std::string r = outcome(st);
  dump(v, dims, d);
  return r;
}
static void see(Json &j, long s) {
  struct stat b;
  const std::string p = path(s);
  if (s > 2 || stat(p.c_str(), &b) != 0) { j.str("fk", s > 2 && stat(p.c_str(), &b) == 0 && s != 5 ? "created" : "none").list("fb", std::vector<long>()); return; }
  if (S_ISDIR(b.st_mode)) { j.str("fk", "dir").list("fb", std::vector<long>()); return; }
  j.str("fk", "file").list("fb", bytes(p));
}

int main(int argc, char **argv) {
  char t[] = "./vf_npy_XXXXXX";
  dir = mkdtemp(t);
  if (symlink("/dev/full", (dir + "/full.npy").c_str()) != 0) return 3;
  Script sc;
  long base = 0;
  while (sc.next()) {
    const std::string op = sc.str();
    if (op == "Q") break;
    if (op == "S") { for (long s = 1; s <= 3; ++s) wipe(s); base = fds(); continue; }
    if (op == "E") { Json().i("fds", fds() - base).emit(); continue; }
    const long s = sc.num();
    Json j;
    if (op == "save") {
      const std::string kind = sc.str(), type = sc.str(); const long api = sc.num();
      const std::vector<long> dims = sc.list(), cap = sc.list(), d = sc.list();
      std::string r;
      if (!guarded([&] {
        if (kind == "array") r = type == "i4" ? save1<int>(dims, cap, d, path(s), api) : type == "i8" ? save1<std::int64_t>(dims, cap, d, path(s), api) : save1<double>(dims, cap, d, path(s), api);
        else r = type == "i4" ? save2<int>(dims, cap, d, path(s), api) : type == "i8" ? save2<std::int64_t>(dims, cap, d, path(s), api) : save2<double>(dims, cap, d, path(s), api);
      })) r = "abort";
      j.str("st", r);
    } else if (op == "load") {
      const std::string kind = sc.str(), type = sc.str(); const long api = sc.num();
      std::vector<long> dims, d; std::string r;
      if (!guarded([&] {
        if (kind == "csr") r = load<Csr>(path(s), api, dims, d);
        else if (kind == "array") r = type == "i4" ? load<il::Array<int>>(path(s), api, dims, d) : type == "i8" ? load<il::Array<std::int64_t>>(path(s), api, dims, d) : load<il::Array<double>>(path(s), api, dims, d);
        else r = type == "i4" ? load<il::Array2D<int>>(path(s), api, dims, d) : type == "i8" ? load<il::Array2D<std::int64_t>>(path(s), api, dims, d) : load<il::Array2D<double>>(path(s), api, dims, d);
      })) r = "abort";
      j.str("st", r).list("rdims", dims).list("rdata", d);
    } else if (op == "raw") { wipe(s); put(path(s), sc.list());
    } else if (op == "poke") { std::vector<long> b = bytes(path(s)); const long p = sc.num(); b[p - 1] = sc.num(); put(path(s), b);
    } else if (op == "cut") { std::vector<long> b = bytes(path(s)); b.resize(sc.num()); put(path(s), b);
    } else if (op == "app") { std::vector<long> b = bytes(path(s)); for (long x : sc.list()) b.push_back(x); put(path(s), b);
    } else if (op == "rm") { wipe(s);
    } else if (op == "mkdir") { wipe(s); mkdir(path(s).c_str(), 0755);
    } else return 3;
    see(j, s);
    j.i("fds", fds() - base);
    j.emit();
  }
  for (long s = 1; s <= 5; ++s) wipe(s);
  rmdir(dir.c_str());
  return 0;
}
