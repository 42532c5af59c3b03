// Timers over a clock that only moves when told to.  Header: S <mode>
#include "vf.h"
#include <ctime>
#include <cmath>
#include <cerrno>
static long g_clock = 1700000000123456789L;
extern "C" int clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = g_clock / 1000000000; t->tv_nsec = g_clock % 1000000000; return 0; }
extern "C" int gettimeofday(struct timeval *t, void *) { t->tv_sec = g_clock / 1000000000; t->tv_usec = g_clock % 1000000000 / 1000; return 0; }
extern "C" int nanosleep(const struct timespec *r, struct timespec *) {
  if (r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec > 999999999) { errno = EINVAL; return -1; }
  g_clock += r->tv_sec * 1000000000 + r->tv_nsec; return 0;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *q) {
  if (flags & TIMER_ABSTIME) { const long t = r->tv_sec * 1000000000 + r->tv_nsec; if (t > g_clock) g_clock = t; return 0; }
  return nanosleep(r, q) ? EINVAL : 0;
}
extern "C" int usleep(useconds_t u) { g_clock += static_cast<long>(u) * 1000; return 0; }
#include <il/core.h>
#include <il/Timer.h>
#include <il/benchmark/tools/timer/Benchmark.h>
#include <il/unit/time.h>
using namespace vf;
struct Run { long n, t; };
int main() {
  Script sc; std::unique_ptr<il::Timer> tm[2]; long t0 = 0;
  auto fresh = [&](int s) { tm[s].reset(new il::Timer{}); };
  while (sc.next()) {
    const std::string op = sc.str();
    if (op == "Q") break;
    if (op == "S") { t0 = g_clock; fresh(0); fresh(1); continue; }
    if (op == "E") { Json().i("clk", g_clock - t0).emit(); continue; }
    Json j; std::string st = "abort", text; double got = 0; std::vector<Run> runs;
    if (op == "adv") { g_clock += sc.num(); st = "ok"; }
    else if (op == "sleep") { const double d = sc.num() * 1e-9; if (guarded([&] { il::sleep(d); })) st = "ok"; }
    else if (op == "zero") { if (guarded([&] { text = il::time_toString(0.0); })) st = "ok"; j.str("text", text); }
    else if (op == "neg") { if (guarded([&] { text = il::time_toString(-1e-3); })) st = "ok"; }
    else if (op == "show") {
      const long u = sc.num(), m = sc.num(); static const double unit[] = {1e-9, 1e-6, 1e-3, 1, 60, 3600, 86400, 31536000};
      if (guarded([&] { text = il::time_toString((m / 1e6) * unit[u - 1]); })) st = "ok";
      long whole = -1, frac = -1; std::string pad, rest; const size_t p = text.find('.'), q = text.find(' ');
      if (p != std::string::npos && q == p + 7 && p > 0 && p < 10) {
        whole = std::stol(text.substr(0, p)); std::string f = text.substr(p + 1, 6); frac = std::stol(f);
        const std::string d = std::to_string(frac); pad = std::string(6 - d.size(), '0'); if (f != pad + d) frac = -1; rest = text.substr(q + 1);
      }
      j.i("whole", whole).i("frac", frac).str("pad", pad).str("unit", rest);
    } else if (op == "bench") {
      const std::string kind = sc.str(); const double goal = sc.num() * 1e-9; const long pre = sc.num(), cost = sc.num(), odd = sc.num(), pause = sc.num(), post = sc.num(); double r = -1;
      if (kind == "short") {
        auto f = [&](il::io_t, il::BStateShort &s) {
          const long b = g_clock; Run x{0, 0}; g_clock += pre;
          while (s.keep_running()) { g_clock += cost + (x.n % 3 == 2 ? odd : 0); ++x.n; if (x.n > 100000) break; }
          g_clock += post; x.t = g_clock - b; runs.push_back(x);
        };
        if (guarded([&] { r = il::benchmark_short(f, goal); })) st = "ok";
      } else {
        auto f = [&](il::io_t, il::BState &s) {
          Run x{0, 0}; g_clock += pre;
          while (s.keep_running()) {
            const long d = cost + (x.n % 3 == 2 ? odd : 0);
            g_clock += d; x.t += d; ++x.n; if (x.n > 100000) break;
            if (pause >= 0) { s.pause_timing(); g_clock += pause; s.resume_timing(); g_clock += 1; x.t += 1; }
            else if (pause == -2 && x.n % 2) { s.pause_timing(); g_clock += 5; }   // goes on with the next iteration
          }
          g_clock += post; runs.push_back(x);
        };
        if (guarded([&] { r = il::benchmark(f, goal); })) st = "ok";
      }
      std::vector<std::string> v; for (const Run &x : runs) { Json k; k.i("n", x.n).i("t", x.t); v.push_back(k.s + "}"); }
      j.rawlist("runs", v).i("ps", std::isfinite(r) && r < 1 ? std::llround(r * 1e12) : -1);
    } else {
      const int s = static_cast<int>(sc.num()) - 1; il::Timer &t = *tm[s];
      const double d = op == "until" ? sc.num() * 1e-9 : 0;
      if (guarded([&] {
        if (op == "start") t.Start(); else if (op == "stop") t.Stop(); else if (op == "reset") t.Reset(); else if (op == "new") fresh(s);
        else if (op == "copy") { if (sc.num()) *tm[1 - s] = t; else tm[1 - s].reset(new il::Timer{t}); }
        else if (op == "time") got = static_cast<const il::Timer &>(t).time(); else static_cast<const il::Timer &>(t).sleepUntil(d);
      })) st = "ok";
    }
    j.str("st", st).i("got", std::isfinite(got) && std::fabs(got) < 2 ? std::lround(got * 1e9) : -1000000).i("clk", g_clock - t0).emit();
  }
  return 0;
}
