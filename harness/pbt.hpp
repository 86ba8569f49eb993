// Property-based testing engine used by every harness in this directory.
//
//  * A case is a "tape": the sequence of bounded draws the generator made. Fresh cases take draws from a
//    PRNG seeded by (VERIF_SEED, stream, case index); some cases are mutations of earlier tapes that reached
//    new code (edge coverage of /repo's objects, recorded through -fsanitize-coverage=trace-pc-guard).
//  * Every case (or a small batch) runs in a forked child, so the library's process-wide singletons start
//    fresh, and crashes, sanitizer reports, std::terminate and hangs are observed by the parent.
//  * The tape lives in shared memory, so it survives a crash; a failing tape is shrunk (operation spans are
//    deleted, values are lowered) and replayed three times before it is reported.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

constexpr std::size_t MAXTAPE = 1 << 15;
constexpr std::size_t MAXSPAN = 1 << 13;
constexpr std::size_t MAXTRACE = 1 << 18;
constexpr std::size_t MAXLABEL = 128;
constexpr std::size_t COVMAP = 1 << 17;
constexpr std::size_t MAXBATCH = 512;

inline std::uint64_t mix(std::uint64_t z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
  std::uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ULL); }
  std::uint64_t below(std::uint64_t n) { return n <= 1 ? 0 : next() % n; }
};

struct CaseSummary {
  std::uint64_t hash;
  std::uint64_t lab[2];
  std::uint32_t nontrivial;
  std::uint32_t newcov;
  std::uint32_t skipped;
  std::uint32_t steps;
};

struct Shared {
  volatile std::uint32_t status; // 0 running, 1 pass, 2 fail
  std::uint32_t batch_done;
  std::uint32_t tape_len;
  std::uint32_t nspan;
  std::uint32_t trace_len;
  std::uint32_t newcov;
  std::uint32_t nlabels;
  std::uint32_t covered;
  std::uint32_t steps;
  char kind[96];
  char msg[6000];
  char labels[MAXLABEL][48];
  CaseSummary sum[MAXBATCH];
  std::uint64_t tape[MAXTAPE];
  std::uint32_t span[MAXSPAN];
  char trace[MAXTRACE];
  unsigned char cov[COVMAP];
};

extern Shared* g_sh;
extern std::uint32_t g_cov_total;
extern bool g_real_backtrace; // see the end of pbt.cpp

inline std::string& tool_name()
{
  static std::string s;
  return s;
}

class Ctx {
 public:
  Ctx(const std::vector<std::uint64_t>& prefix, bool extend, std::uint64_t seed, const std::string& scratch)
      : m_prefix(prefix), m_extend(extend), m_rng(seed), m_scratch(scratch)
  {
    g_sh->tape_len = 0;
    g_sh->nspan = 0;
    g_sh->trace_len = 0;
    g_sh->newcov = 0;
    g_sh->steps = 0;
    g_sh->kind[0] = 0;
    g_sh->msg[0] = 0;
  }

  // --- draws -------------------------------------------------------------------------------------------
  std::uint64_t below(std::uint64_t n)
  {
    std::uint64_t v;
    if (m_pos < m_prefix.size())
      v = m_prefix[m_pos];
    else if (m_extend)
      v = m_rng.next();
    else
      v = 0;
    ++m_pos;
    if (n == 0)
      n = 1;
    if (v >= n)
      v %= n;
    if (g_sh->tape_len < MAXTAPE)
      g_sh->tape[g_sh->tape_len++] = v;
    else
      v = 0;
    m_hash = mix(m_hash ^ (v + 1));
    return v;
  }
  std::uint64_t range(std::uint64_t lo, std::uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // 0 on the tape means "no"
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // weighted choice; index 0 should be the simplest alternative
  std::size_t weighted(std::initializer_list<unsigned> w)
  {
    unsigned t = 0;
    for (unsigned x : w) t += x;
    std::uint64_t r = below(t);
    std::size_t i = 0;
    for (unsigned x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  // One more operation? Marks the beginning of a deletable span.
  bool more(std::size_t max_ops, unsigned stop_in = 0)
  {
    if (m_ops >= max_ops || g_sh->tape_len + 64 > MAXTAPE)
      return false;
    if (g_sh->nspan < MAXSPAN)
      g_sh->span[g_sh->nspan++] = g_sh->tape_len;
    bool go = below(stop_in ? stop_in : 64) != 0;
    if (go)
      ++m_ops;
    return go;
  }
  void reset_ops() { m_ops = 0; }
  void span()
  {
    if (g_sh->nspan < MAXSPAN)
      g_sh->span[g_sh->nspan++] = g_sh->tape_len;
  }
  // A size with emphasis on boundaries: small values, powers of two +-1, page-ish values.
  std::size_t size(std::size_t max)
  {
    std::size_t r;
    switch (weighted({6, 5, 5, 3})) {
      case 0: r = range(1, max < 64 ? max : 64); break;
      case 1: {
        std::size_t p = std::size_t{1} << below(22);
        std::size_t d = below(5);
        r = p + d - 2;
        if (r > (std::size_t{1} << 40)) r = 1;
        break;
      }
      case 2: r = range(1, max < 1024 ? max : 1024); break;
      default: r = range(1, max); break;
    }
    if (r == 0) r = 1;
    return r > max ? 1 + r % max : r;
  }

  // --- reporting ---------------------------------------------------------------------------------------
  void trace(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
  {
    std::uint32_t at = g_sh->trace_len;
    if (at + 600 > MAXTRACE)
      return;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(g_sh->trace + at, 500, fmt, ap);
    va_end(ap);
    if (n > 499) n = 499;
    if (n < 0) n = 0;
    g_sh->trace[at + n] = '\n';
    g_sh->trace[at + n + 1] = 0;
    g_sh->trace_len = at + n + 1;
  }
  void label(const char* l)
  {
    std::uint32_t i = 0;
    for (; i < g_sh->nlabels; ++i)
      if (!strncmp(g_sh->labels[i], l, 47))
        break;
    if (i == g_sh->nlabels) {
      if (i >= MAXLABEL) return;
      snprintf(g_sh->labels[i], 48, "%s", l);
      g_sh->nlabels = i + 1;
    }
    m_lab[i / 64] |= 1ULL << (i % 64);
  }
  void nontrivial() { m_nontrivial = true; }
  void step() { ++g_sh->steps; }
  [[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
  {
    snprintf(g_sh->kind, sizeof g_sh->kind, "%s", kind);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
    va_end(ap);
    g_sh->status = 2;
    _exit(33);
  }
  const std::string& scratch() // created on demand; removed by the parent
  {
    mkdir(m_scratch.c_str(), 0755);
    return m_scratch;
  }
  std::uint64_t seed_draw() { return below(1u << 30); }

  std::uint64_t m_hash{0x1234};
  std::uint64_t m_lab[2]{0, 0};
  bool m_nontrivial{false};
  bool exit_handlers{false}; // end the child through exit() so static destructors run

 private:
  const std::vector<std::uint64_t>& m_prefix;
  bool m_extend;
  Rng m_rng;
  std::string m_scratch;
  std::size_t m_pos{0};
  std::size_t m_ops{0};
};

#define PCHECK(ctx, cond, kind, ...)        \
  do {                                      \
    if (!(cond)) (ctx).fail(kind, __VA_ARGS__); \
  } while (0)

using CaseFn = std::function<void(Ctx&)>;
struct Stream {
  const char* name;   // a generator/oracle pair
  unsigned weight;    // share of the cases
  unsigned batch;     // cases per forked child (1 = full isolation)
  CaseFn fn;
  const char* rule;   // what makes a case non-trivial
};

struct Settings {
  unsigned cpu_s{20};
  unsigned wall_s{120};
  std::size_t default_quick{4000};
  std::size_t default_thorough{100000};
};

inline std::string arg(int argc, char** argv, const char* key, const char* dflt = "")
{
  for (int i = 1; i + 1 < argc; i += 2)
    if (!strcmp(argv[i], key)) return argv[i + 1];
  return dflt;
}

int run_main(int argc, char** argv, const std::vector<Stream>& streams, const Settings& st);

} // namespace pbt

#endif
