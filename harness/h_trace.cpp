// C34: backtraces of allocations and errors, in a build with backtrace support.
#include "world.hpp"

#include <dlfcn.h>
#include <execinfo.h>
#include <atomic>
#include <map>
#include <thread>

#include "umpire/TypedAllocator.hpp"
#include "umpire/Umpire.hpp"

using namespace pbt;
using umpire::Allocator;
namespace st = umpire::strategy;

namespace {

struct Call {
  enum Op { ALLOC, NAMED, REALLOC, MOVE, EXTERNAL, FREE, BAD_FREE, TYPED } op;
  Allocator* a{};
  void* p{};
  std::size_t size{};
  void* result{};
  bool threw{};
  std::string error;
  std::vector<void*> own;
};

} // namespace

extern "C" __attribute__((noinline)) void trace_leaf(Call* k)
{
  auto& rm = umpire::ResourceManager::getInstance();
  void* f[512];
  int n = ::backtrace(f, 512);
  k->own.assign(f, f + n);
  Dl_info d{};
  while (!k->own.empty() && !(dladdr((char*)k->own[0] - 1, &d) && d.dli_saddr == (void*)trace_leaf)) k->own.erase(k->own.begin());
  try {
    switch (k->op) {
      case Call::ALLOC: k->result = k->a->allocate(k->size); break;
      case Call::NAMED: k->result = k->a->allocate("named", k->size); break;
      case Call::REALLOC: k->result = rm.reallocate(k->p, k->size); break;
      case Call::MOVE: k->result = rm.move(k->p, *k->a); break;
      case Call::EXTERNAL:
        umpire::register_external_allocation(k->p, umpire::util::AllocationRecord(k->p, k->size, k->a->getAllocationStrategy(), "external"));
        k->result = k->p;
        break;
      case Call::TYPED: k->result = umpire::TypedAllocator<char>(*k->a).allocate(k->size); break;
      case Call::FREE:
      case Call::BAD_FREE: k->a->deallocate(k->p); break;
    }
  } catch (const umpire::runtime_error& e) {
    k->threw = true;
    k->error = e.what();
  }
  asm volatile("" ::: "memory");
}

// ways to get there
extern "C" __attribute__((noinline)) void trace_red(Call* k, unsigned depth, unsigned path);
extern "C" __attribute__((noinline)) void trace_blue(Call* k, unsigned depth, unsigned path)
{
  if (!depth)
    trace_leaf(k);
  else if (path & 1)
    trace_red(k, depth - 1, path >> 1);
  else
    trace_blue(k, depth - 1, path >> 1);
  asm volatile("" ::: "memory");
}
extern "C" __attribute__((noinline)) void trace_red(Call* k, unsigned depth, unsigned path)
{
  if (!depth)
    trace_leaf(k);
  else if (path & 1)
    trace_blue(k, depth - 1, path >> 1);
  else
    trace_red(k, depth - 1, path >> 1);
  asm volatile("" ::: "memory");
}

namespace {

struct Frame {
  std::uintptr_t addr;
  std::string text;
};

struct Sim {
  Ctx& c;
  umpire::ResourceManager& rm{umpire::ResourceManager::getInstance()};
  bool on;
  std::vector<Allocator> v;
  struct Live {
    void* p;
    std::size_t size;
    int owner; // -1 external
    int strat;
    std::string bt;
  };
  std::vector<Live> live;
  unsigned traced{0}, refused{0}, deep{0};

  Sim(Ctx& x, bool o) : c(x), on(o) {}

  std::vector<Frame> parse(const std::string& s)
  {
    std::vector<Frame> r;
    std::size_t at = s.find("Backtrace: ");
    PCHECK(c, at != std::string::npos, "no-backtrace", "there is no backtrace in \"%s\"", s.substr(0, 300).c_str());
    std::size_t n = strtoul(s.c_str() + at + 11, nullptr, 10);
    std::istringstream in(s.substr(at));
    std::string line;
    std::getline(in, line);
    PCHECK(c, line == "Backtrace: " + std::to_string(n) + " frames", "header", "\"%s\"", line.c_str());
    for (std::size_t i = 0; i < n; ++i) {
      PCHECK(c, (bool)std::getline(in, line), "short", "%zu frames announced, %zu printed", n, i);
      char idx[32];
      void* a = nullptr;
      int used = 0;
      PCHECK(c, sscanf(line.c_str(), " %31s %p %n", idx, &a, &used) >= 2, "line", "frame line \"%s\"", line.c_str());
      r.push_back({(std::uintptr_t)a, line.substr((std::size_t)used)});
    }
    return r;
  }

  // the frames contain the call of trace_leaf, and above it exactly its callers
  void same_call(const std::vector<Frame>& f, const Call& k, const char* what)
  {
    PCHECK(c, k.own.size() > 2, "harness", "the harness has no backtrace: %zu frames", k.own.size());
    std::size_t at = f.size();
    for (std::size_t i = 0; i < f.size() && at == f.size(); ++i) {
      Dl_info d{};
      if (dladdr((void*)(f[i].addr - 1), &d) && d.dli_saddr == (void*)trace_leaf) at = i;
    }
    PCHECK(c, at < f.size(), "wrong-call", "%s: the backtrace of %zu frames does not lead through the call that was made", what, f.size());
    for (std::size_t i = 1; i < k.own.size(); ++i) {
      if (at + i >= f.size()) {
        PCHECK(c, f.size() >= 128, "cut-off", "%s: the backtrace has only %zu frames, %zu callers are missing", what, f.size(), k.own.size() - i);
        c.label("cut off at the frame limit");
        break;
      }
      PCHECK(c, f[at + i].addr == (std::uintptr_t)k.own[i], "wrong-caller", "%s: caller %zu is %#zx instead of %#zx", what, i, (std::size_t)f[at + i].addr,
             (std::size_t)k.own[i]);
    }
    // symbols
    char want[64];
    snprintf(want, sizeof want, "trace_leaf+0x%zx", (std::size_t)(f[at].addr - (std::uintptr_t)trace_leaf));
    PCHECK(c, f[at].text == want, "symbol", "%s: the frame of %s is printed as \"%s\"", what, want, f[at].text.c_str());
  }

  void call(Call& k)
  {
    unsigned depth = c.chance(1, 12) ? 60 + (unsigned)c.below(120) : (unsigned)c.below(12);
    unsigned path = (unsigned)c.below(1u << 12);
    if (depth > 50) ++deep;
    static const char* nm[] = {"allocate", "allocate named", "reallocate", "move", "register", "free", "bad free", "typed allocate"};
    c.trace("%s %zu at depth %u path %x (%s)", nm[k.op], k.size, depth, path, k.a ? k.a->getName().c_str() : "-");
    trace_blue(&k, depth, path);
    if (k.threw) {
      ++refused;
      same_call(parse(k.error), k, "an error");
      c.label("error with backtrace");
    }
  }

  std::string got(void* p)
  {
    try {
      return umpire::get_backtrace(p);
    } catch (const umpire::runtime_error&) {
      c.fail("unknown", "get_backtrace does not know a live allocation");
    }
  }

  void fresh(Live l, const Call& k, const char* what)
  {
    std::string s = got(l.p);
    if (on) {
      same_call(parse(s), k, what);
      ++traced;
    } else
      PCHECK(c, s == "[UMPIRE_BACKTRACE=Off]", "off", "%s: backtraces are off, but \"%s\"", what, s.substr(0, 200).c_str());
    l.bt = s;
    live.push_back(l);
  }

  void check(const char* what, bool all)
  {
    std::size_t few = live.size() > 3 ? c.below(live.size()) : 0;
    for (std::size_t i = 0; i < live.size(); ++i) {
      auto& l = live[i];
      if (!all && i != few && i + 1 != live.size()) continue;
      std::string s = got(l.p);
      PCHECK(c, s == l.bt, "changed", "after %s the backtrace of a live allocation of %zu bytes is another one: %s instead of %s", what, l.size,
             s.substr(0, 1500).c_str(), l.bt.substr(0, 1500).c_str());
    }
    if (!live.empty() && c.chance(1, 2)) {
      auto& l = live[c.below(live.size())];
      if (l.size > 1) PCHECK(c, got((char*)l.p + c.below(l.size)) == l.bt, "interior", "the backtrace of an address inside an allocation is not the allocation's");
    }
    if (c.chance(1, 6)) {
      int i = (int)c.below(v.size());
      std::ostringstream os;
      umpire::print_allocator_records(v[i], os);
      std::string s = os.str();
      for (auto& l : live)
        if (l.strat == i)
          PCHECK(c, s.find("backtrace: " + l.bt) != std::string::npos, "records", "the printed records do not have the backtrace of a live allocation");
      c.label("records printed");
    }
    if (c.chance(1, 8)) {
      bool threw = false;
      try {
        umpire::get_backtrace((void*)0x1234);
      } catch (const umpire::runtime_error&) {
        threw = true;
      }
      PCHECK(c, threw, "unknown-known", "get_backtrace of an unknown address did not throw");
    }
  }

  void run()
  {
    Allocator host = rm.getAllocator("HOST");
    v.push_back(host);
    v.push_back(rm.makeAllocator<st::QuickPool>("q", host, 2048, 512));
    unsigned n = 1 + (unsigned)c.below(3);
    for (unsigned i = 0; i < n; ++i) {
      std::string nm = "x" + std::to_string(i);
      switch (c.below(5)) {
        case 0: v.push_back(rm.makeAllocator<st::DynamicPoolList>(nm, host, 2048, 512)); break;
        case 1: v.push_back(rm.makeAllocator<st::SizeLimiter>(nm, v[c.below(v.size())], 1 + c.size(3000))); break;
        case 2: v.push_back(rm.makeAllocator<st::ThreadSafeAllocator>(nm, v[c.below(v.size())])); break;
        case 3: v.push_back(rm.makeAllocator<st::NamedAllocationStrategy>(nm, v[c.below(v.size())])); break;
        default: v.push_back(rm.makeAllocator<st::QuickPool>(nm, v[c.below(v.size())], 1024, 128)); break;
      }
    }
    while (c.more(40)) {
      c.step();
      Call k{};
      const char* what = "?";
      switch (c.weighted({6, 3, 4, 3, 2, 4, 4, 1, 1})) {
        case 0:
        case 1:
        case 7: {
          int i = (int)c.below(v.size());
          k.a = &v[i];
          k.op = c.chance(1, 3) ? Call::NAMED : c.chance(1, 6) ? Call::TYPED : Call::ALLOC;
          k.size = c.chance(1, 12) ? 0 : c.chance(1, 15) ? ~std::size_t{0} >> (1 + c.below(3)) : c.size(1500);
          if (k.op == Call::TYPED && !k.size) k.size = 1;
          what = "an allocation";
          call(k);
          if (!k.threw) fresh({k.result, k.size, i, i, ""}, k, what);
          break;
        }
        case 2: {
          if (live.empty()) break;
          std::size_t x = c.below(live.size());
          if (live[x].owner < 0) break;
          k.op = Call::REALLOC;
          k.p = live[x].p;
          k.size = c.chance(1, 12) ? 0 : c.chance(1, 10) ? ~std::size_t{0} >> (1 + c.below(3)) : c.size(1500);
          what = "a reallocation";
          call(k);
          if (!k.threw) {
            Live l = live[x];
            live.erase(live.begin() + (long)x);
            l.p = k.result;
            l.size = k.size;
            fresh(l, k, what);
          }
          break;
        }
        case 3: {
          if (live.empty()) break;
          std::size_t x = c.below(live.size());
          int t = (int)c.below(v.size());
          if (live[x].owner < 0) break;
          k.op = Call::MOVE;
          k.p = live[x].p;
          k.a = &v[t];
          what = "a move";
          call(k);
          if (!k.threw && t != live[x].owner) {
            Live l = live[x];
            live.erase(live.begin() + (long)x);
            l.p = k.result;
            l.owner = l.strat = t;
            fresh(l, k, what);
          }
          break;
        }
        case 4: {
          static char far[16][64];
          std::size_t x = c.below(16);
          bool used = false;
          for (auto& l : live) used |= l.p == far[x];
          if (used) {
            umpire::deregister_external_allocation(far[x]);
            for (std::size_t i = 0; i < live.size(); ++i)
              if (live[i].p == far[x]) {
                live.erase(live.begin() + (long)i);
                break;
              }
            what = "a deregistration";
            break;
          }
          int i = (int)c.below(v.size());
          k.op = Call::EXTERNAL;
          k.p = far[x];
          k.size = 1 + c.below(64);
          k.a = &v[i];
          what = "a registration";
          call(k);
          fresh({k.p, k.size, -1, i, ""}, k, what);
          break;
        }
        case 5: {
          if (live.empty()) break;
          std::size_t x = c.below(live.size());
          if (live[x].owner < 0) break;
          k.op = Call::FREE;
          k.a = &v[live[x].owner];
          k.p = live[x].p;
          what = "a deallocation";
          call(k);
          PCHECK(c, !k.threw, "free-refused", "%s", k.error.substr(0, 300).c_str());
          live.erase(live.begin() + (long)x);
          break;
        }
        case 8: {
          // a second record at the address of a live allocation
          if (live.empty()) break;
          Live l = live[c.below(live.size())];
          int i = c.chance(1, 2) ? l.strat : (int)c.below(v.size());
          k.op = Call::EXTERNAL;
          k.p = l.p;
          k.size = l.size;
          k.a = &v[i];
          what = "a second registration";
          call(k);
          std::string second = got(l.p);
          if (on) same_call(parse(second), k, what);
          for (int j : {i, l.strat}) {
            std::ostringstream os;
            umpire::print_allocator_records(v[j], os);
            if (j == i) PCHECK(c, os.str().find("backtrace: " + second) != std::string::npos, "records", "the printed records do not have the backtrace of the second registration");
            if (j == l.strat) PCHECK(c, os.str().find("backtrace: " + l.bt) != std::string::npos, "records", "the printed records do not have the backtrace of the first of two records");
          }
          umpire::deregister_external_allocation(l.p);
          c.label("two records at one address");
          break;
        }
        default: {
          if (live.empty()) break;
          std::size_t x = c.below(live.size());
          k.op = Call::BAD_FREE;
          int t = (int)c.below(v.size());
          std::size_t off = t == live[x].strat || c.chance(1, 3) ? live[x].size > 1 ? 1 + c.below(live[x].size - 1) : 0 : 0;
          if (t == live[x].strat && !off) break;
          k.a = &v[t];
          k.p = (char*)live[x].p + off;
          what = "a refused deallocation";
          call(k);
          PCHECK(c, k.threw, "free-accepted", "a deallocation of what the allocator does not own was accepted");
          break;
        }
      }
      check(what, k.threw || c.chance(1, 5));
    }
    check("everything", true);
    if (refused && (traced > 2 || (!on && live.size() > 2))) c.nontrivial();
    if (deep) c.label("deep call");
  }
};

// Several threads allocate at call chains of their own
void several(Ctx& c, Sim& s)
{
  unsigned nt = 2 + (unsigned)c.below(3), n = 4 + (unsigned)c.below(30);
  std::vector<std::vector<Call>> calls(nt, std::vector<Call>(n));
  std::vector<std::vector<std::string>> bt(nt, std::vector<std::string>(n));
  std::vector<unsigned> depth(nt);
  Allocator safe = s.rm.makeAllocator<st::ThreadSafeAllocator>("safe", s.rm.getAllocator("HOST"));
  std::vector<Allocator> own;
  for (unsigned t = 0; t < nt; ++t) own.push_back(s.rm.makeAllocator<st::QuickPool>("own" + std::to_string(t), safe, 8192, 1024));
  for (unsigned t = 0; t < nt; ++t) {
    depth[t] = (unsigned)c.below(30);
    for (auto& k : calls[t]) {
      k.a = &own[t];
      k.op = Call::ALLOC;
      k.size = c.chance(1, 8) ? ~std::size_t{0} >> 1 : 1 + c.below(100);
    }
  }
  c.trace("%u threads, %u allocations each", nt, n);
  std::atomic<unsigned> ready{0};
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      ready++;
      while (ready < nt) std::this_thread::yield();
      for (unsigned i = 0; i < n; ++i) {
        trace_blue(&calls[t][i], depth[t], (t + 1) * 0x9e5u);
        if (!calls[t][i].threw) bt[t][i] = umpire::get_backtrace(calls[t][i].result);
      }
    });
  for (auto& t : th) t.join();
  for (unsigned t = 0; t < nt; ++t)
    for (unsigned i = 0; i < n; ++i) {
      Call& k = calls[t][i];
      if (k.threw)
        s.same_call(s.parse(k.error), k, "an error in a thread");
      else if (s.on)
        s.same_call(s.parse(bt[t][i]), k, "an allocation in a thread");
      if (!k.threw) k.a->deallocate(k.result);
    }
  c.label("threads");
  c.nontrivial();
}

void trace_case(Ctx& c)
{
  g_real_backtrace = true;
  setenv("UMPIRE_LOG_LEVEL", "Error", 1);
  static const char* values[] = {"On", "ON", "on", "Off", "", "0", "no"};
  unsigned w = (unsigned)c.below(10);
  bool on = w < 3 || w >= 7;
  if (w >= 7)
    setenv("UMPIRE_BACKTRACE", "On", 1);
  else if (w == 6)
    unsetenv("UMPIRE_BACKTRACE");
  else
    setenv("UMPIRE_BACKTRACE", values[w], 1);
  c.trace("UMPIRE_BACKTRACE=%s", getenv("UMPIRE_BACKTRACE") ? getenv("UMPIRE_BACKTRACE") : "(unset)");
  Sim s(c, on);
  if (c.chance(1, 8))
    several(c, s);
  else
    s.run();
}

} // namespace

int main(int argc, char** argv)
{
  return run_main(argc, argv, {{"trace", 1, 1, trace_case, "several allocations were traced and some operation was refused with an error"}}, Settings{});
}
