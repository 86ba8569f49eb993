// C29: tearing the library down at process exit (leak report, memory returned bottom-up, no crash).
// C05 (second part): destroying a strategy returns its memory to the parent.
#include "world.hpp"

#include <sstream>

using namespace pbt;
using world::Addr;
using world::Spy;
using umpire::Allocator;
using umpire::strategy::AllocationStrategy;
namespace st = umpire::strategy;

namespace {

struct Report { // written by the dying process
  struct One {
    std::uint32_t destroyed, blocks;
    std::uint64_t outstanding;
    char error[200];
    char idle[200];
  } spy[4];
};
Report* g_rep = nullptr;
std::map<Addr, std::size_t>* g_left = nullptr; // what the program still holds

class EndSpy : public Spy {
 public:
  EndSpy(const std::string& name, int id, int slot) : Spy(name, id, (slot % 2) * 8), m_slot(slot) {}
  ~EndSpy()
  {
    auto& r = g_rep->spy[m_slot];
    ++r.destroyed;
    r.blocks = live.size();
    r.outstanding = outstanding;
    snprintf(r.error, sizeof r.error, "%s", error.c_str());
    if (g_left)
      for (auto& b : live) {
        auto it = g_left->lower_bound(b.first);
        bool used = it != g_left->end() && it->first < b.first + b.second.size;
        if (!used && it != g_left->begin()) {
          --it;
          used = it->first + it->second > b.first;
        }
        if (!used) snprintf(r.idle, sizeof r.idle, "a block of %zu bytes with no live allocation in it", b.second.size);
      }
  }

 private:
  int m_slot;
};

enum K { QUICK, LIST, FIXED, MIXED, MONO, SLOT, LIMIT, TSAFE, ALIGN, NAMED, SHIM, NK };
const char* kname[] = {"QuickPool", "DynamicPoolList", "FixedPool", "MixedPool", "Monotonic", "SlotPool", "SizeLimiter", "ThreadSafe",
                       "Aligned", "Named", "NamingShim"};

struct Al {
  Allocator a;
  int kind;        // -1 leaf
  int parent;
  std::size_t fixed{0};
  bool children{false};
  std::size_t bytes{0};
  std::size_t count{0};
  std::string name;
};
struct Live {
  void* p;
  std::size_t n;
  int al;
};

std::string slurp(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

// runs in the process that is going to exit
void life(Ctx& c, const std::string& dir, bool leave, std::vector<Al>& al, std::vector<Live>& live)
{
  setenv("UMPIRE_LOG_LEVEL", "error", 1);
  setenv("UMPIRE_OUTPUT_DIR", dir.c_str(), 1);
  setenv("UMPIRE_OUTPUT_BASENAME", "exit", 1);
  auto& rm = umpire::ResourceManager::getInstance();
  int leaves = 1 + (int)c.below(2);
  for (int i = 0; i < leaves; ++i) {
    al.push_back({rm.makeAllocator<EndSpy>("leaf" + std::to_string(i), i), -1, -1});
    al.back().name = "leaf" + std::to_string(i);
  }
  if (c.chance(1, 3)) {
    al.push_back({rm.getAllocator("HOST"), -1, -1});
    al.back().name = "HOST";
  }
  unsigned n = 1 + (unsigned)c.below(6);
  for (unsigned i = 0; i < n; ++i) {
    c.span();
    int p = (int)c.below(al.size());
    if (al[p].fixed) p = 0;
    Allocator par = al[p].a;
    int k = (int)c.below(NK);
    std::string nm = std::string(kname[k]) + std::to_string(i);
    Al x;
    x.kind = k;
    x.parent = p;
    x.name = nm;
    try {
      switch (k) {
        case QUICK: x.a = rm.makeAllocator<st::QuickPool>(nm, par, c.size(2000), c.size(500), std::size_t{8} << c.below(4)); break;
        case LIST: x.a = rm.makeAllocator<st::DynamicPoolList>(nm, par, c.size(2000), c.size(500), std::size_t{8} << c.below(4)); break;
        case FIXED: x.fixed = 8 * c.range(1, 8); x.a = rm.makeAllocator<st::FixedPool>(nm, par, x.fixed, c.range(1, 70)); break;
        case MIXED: x.a = rm.makeAllocator<st::MixedPool>(nm, par); break;
        case MONO: x.a = rm.makeAllocator<st::MonotonicAllocationStrategy>(nm, par, c.size(3000)); break;
        case SLOT: x.a = rm.makeAllocator<st::SlotPool>(nm, par, c.range(1, 12)); break;
        case LIMIT: x.a = rm.makeAllocator<st::SizeLimiter>(nm, par, c.size(20000)); break;
        case TSAFE: x.a = rm.makeAllocator<st::ThreadSafeAllocator>(nm, par); break;
        case ALIGN: x.a = rm.makeAllocator<st::AlignedAllocator>(nm, par, std::size_t{16} << c.below(5)); break;
        case NAMED: x.a = rm.makeAllocator<st::NamedAllocationStrategy>(nm, par); break;
        default: x.a = rm.makeAllocator<st::NamingShim>(nm, par); break;
      }
    } catch (umpire::runtime_error&) {
      c.trace("%s over %s refused", nm.c_str(), al[p].name.c_str());
      continue;
    }
    c.trace("%s over %s", nm.c_str(), al[p].name.c_str());
    al[p].children = true;
    al.push_back(x);
  }
  while (c.more(60)) {
    c.step();
    switch (c.weighted({8, 5, 1, 1, 1})) {
      case 0: {
        int i = (int)c.below(al.size());
        std::size_t sz = c.chance(1, 12) ? 0 : al[i].fixed ? al[i].fixed : c.size(600);
        void* p;
        try {
          p = al[i].a.allocate(sz);
        } catch (umpire::runtime_error&) {
          break;
        }
        memset(p, 0x5a, sz);
        c.trace("allocate %zu from %s", sz, al[i].name.c_str());
        live.push_back({p, sz, i});
        al[i].bytes += sz;
        ++al[i].count;
        break;
      }
      case 1: {
        if (live.empty()) break;
        std::size_t k = c.below(live.size());
        c.trace("free %zu of %s", live[k].n, al[live[k].al].name.c_str());
        rm.deallocate(live[k].p);
        al[live[k].al].bytes -= live[k].n;
        --al[live[k].al].count;
        live.erase(live.begin() + k);
        break;
      }
      case 2: {
        int i = (int)c.below(al.size());
        if (al[i].kind == MIXED) break;
        c.trace("release %s", al[i].name.c_str());
        al[i].a.release();
        break;
      }
      case 3: {
        int i = (int)c.below(al.size());
        try {
          umpire::try_coalesce(al[i].a);
        } catch (umpire::runtime_error&) {
        }
        break;
      }
      default: {
        if (live.empty()) break;
        std::size_t k = c.below(live.size());
        if (al[live[k].al].fixed || !live[k].n) break;
        std::size_t sz = c.size(600);
        try {
          void* q = rm.reallocate(live[k].p, sz);
          al[live[k].al].bytes += sz - live[k].n;
          live[k].p = q;
          live[k].n = sz;
          c.trace("reallocate to %zu in %s", sz, al[live[k].al].name.c_str());
        } catch (umpire::runtime_error&) {
        }
        break;
      }
    }
  }
  if (c.chance(1, 10)) { // a process that leaves a great deal behind
    int i = (int)c.below(al.size());
    unsigned m = (unsigned)c.range(200, 1500);
    c.trace("allocate %u times from %s", m, al[i].name.c_str());
    for (unsigned k = 0; k < m; ++k) {
      std::size_t sz = al[i].fixed ? al[i].fixed : 1 + k % 23;
      void* p;
      try {
        p = al[i].a.allocate(sz);
      } catch (umpire::runtime_error&) {
        break;
      }
      live.push_back({p, sz, i});
      al[i].bytes += sz;
      ++al[i].count;
    }
  }
  std::vector<Live> left;
  Rng pick(c.chance(1, 2) ? c.below(1u << 20) : 0);
  for (auto& l : live) {
    if (leave && pick.below(3) == 0) {
      left.push_back(l);
      continue;
    }
    rm.deallocate(l.p);
    al[l.al].bytes -= l.n;
    --al[l.al].count;
  }
  live = left;
}

void at_exit(Ctx& c)
{
  bool leave = c.chance(1, 2);
  std::string dir = c.scratch();
  g_rep = static_cast<Report*>(mmap(nullptr, sizeof(Report) + (1 << 18), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset((void*)g_rep, 0, sizeof(Report));
  char* expect = reinterpret_cast<char*>(g_rep) + sizeof(Report); // lines "name bytes exact" and "@ pointer end name"
  expect[0] = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    static std::vector<Al> al;
    static std::vector<Live> live;
    life(c, dir, leave, al, live);
    std::string out;
    for (auto& a : al)
      if (a.bytes) out += "+" + a.name + " " + std::to_string(a.bytes) + " " + (a.children || a.kind == MONO ? "0" : "1") + "\n";
      else if (a.kind == MONO) out += "?" + a.name + " 0 0\n";
      else if (!a.children) out += "-" + a.name + "\n";
    for (auto& l : live) {
      std::ostringstream o;
      if (l.n) {
        o << "@" << l.p << "|" << (void*)((char*)l.p + l.n) << "|" << l.n << "\n";
        out += o.str();
      }
    }
    // a fixed-size pool that leaks keeps all of its blocks, on purpose
    bool keeps = false;
    for (auto& a : al)
      if ((a.kind == FIXED || a.kind == MIXED) && (a.bytes || a.children)) keeps = true;
    if (!keeps) g_left = new std::map<Addr, std::size_t>;
    if (g_left) for (auto& l : live)
      if (l.n) (*g_left)[(Addr)l.p] = l.n;
    out += live.empty() ? "clean\n" : "left\n";
    bool spies = false;
    for (auto& a : al) spies = spies || a.name == "leaf1";
    out += spies ? "two\n" : "one\n";
    snprintf(expect, 1 << 18, "%s", out.c_str());
    exit(0);
  }
  int stt = 0;
  while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(stt) && WEXITSTATUS(stt) == 33) _exit(33);
  if (WIFEXITED(stt) && WEXITSTATUS(stt) != 0) _exit(WEXITSTATUS(stt));
  if (WIFSIGNALED(stt)) {
    signal(WTERMSIG(stt), SIG_DFL);
    raise(WTERMSIG(stt));
    _exit(99);
  }
  std::string ex = expect, log;
  for (int k = 0; k < 3; ++k) log += slurp(dir + "/exit." + std::to_string(pid) + "." + std::to_string(k) + ".log");
  bool clean = ex.find("\nclean\n") != std::string::npos || ex.compare(0, 6, "clean\n") == 0;
  bool two = ex.find("two\n") != std::string::npos;
  for (int i = 0; i < (two ? 2 : 1); ++i) {
    auto& r = g_rep->spy[i];
    PCHECK(c, r.destroyed == 1, "destroyed", "memory resource leaf%d was destroyed %u times at exit", i, r.destroyed);
    PCHECK(c, !r.error[0], "returned-wrong", "at exit: %s", r.error);
    if (!clean) PCHECK(c, !r.idle[0], "idle-kept", "leaf%d was destroyed at exit while it was still owed %s", i, r.idle);
    if (clean)
      PCHECK(c, r.blocks == 0, "outstanding", "everything was freed, but %u blocks (%llu bytes) of leaf%d had not been returned when it was destroyed at exit",
             r.blocks, (unsigned long long)r.outstanding, i);
  }
  std::istringstream is(ex);
  std::string line;
  std::set<std::string> may;
  unsigned leaks = 0;
  while (std::getline(is, line)) {
    if (line[0] == '+') {
      std::istringstream l(line.substr(1));
      std::string nm, by;
      int exact;
      l >> nm >> by >> exact;
      may.insert(nm);
      ++leaks;
      std::string want = nm + " Allocator still has ";
      std::size_t at = log.find(want);
      PCHECK(c, at != std::string::npos, "leak-unreported", "%s bytes of %s were live at exit, but the log does not say so", by.c_str(), nm.c_str());
      if (exact) PCHECK(c, log.compare(at + want.size(), by.size() + 6, by + " bytes") == 0, "leak-size", "%s bytes of %s were live at exit; the log says \"%s\"", by.c_str(),
                        nm.c_str(), log.substr(at, want.size() + 20).c_str());
      PCHECK(c, log.find(want, at + 1) == std::string::npos, "leak-twice", "the leak of %s was reported twice", nm.c_str());
    } else if (line[0] == '?') {
      std::istringstream l(line.substr(1));
      std::string nm;
      l >> nm;
      may.insert(nm);
    } else if (line[0] == '-') {
      PCHECK(c, log.find(" " + line.substr(1) + " Allocator still has ") == std::string::npos && log.find(":" + line.substr(1) + " Allocator still has ") == std::string::npos,
             "leak-phantom", "everything of %s was freed, but the log says it still has bytes", line.substr(1).c_str());
    } else if (line[0] == '@') {
      std::size_t b1 = line.find('|'), b2 = line.find('|', b1 + 1);
      std::string want = "size: " + line.substr(b2 + 1) + ", range: " + line.substr(1, b1 - 1) + " -- " + line.substr(b1 + 1, b2 - b1 - 1);
      PCHECK(c, log.find(want) != std::string::npos, "leak-record", "the leaked allocation \"%s\" is not in the log", want.c_str());
    }
  }
  PCHECK(c, log.find(" Allocator still has 0 bytes") == std::string::npos, "leak-phantom", "the log reports an allocator that still has 0 bytes");
  if (clean) {
    for (std::size_t at = 0; (at = log.find(" Allocator still has ", at)) != std::string::npos; ++at) {
      std::size_t b = log.rfind(' ', at - 1);
      std::string nm = log.substr(b + 1, at - b - 1);
      PCHECK(c, may.count(nm), "leak-phantom", "everything was freed, but the log says: %s", log.substr(b, 80).c_str());
    }
  }
  munmap((void*)g_rep, sizeof(Report) + (1 << 18));
  if (clean) c.label("all-freed");
  if (leaks) c.label("leaked");
  c.m_hash = 0x1234; // the draws were made by the process that exited
  for (std::uint32_t i = 0; i < g_sh->tape_len; ++i) c.m_hash = mix(c.m_hash ^ (g_sh->tape[i] + 1));
  if (g_sh->steps > 5) c.nontrivial();
}

// --- destroying one strategy --------------------------------------------------------------------------------
void destroy(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  static unsigned serial = 0;
  Allocator leaf = rm.makeAllocator<Spy>("spy" + std::to_string(serial++), (int)(c.below(2) * 8));
  Spy* spy = umpire::util::unwrap_allocator<Spy>(leaf);
  std::string nm = "s" + std::to_string(serial++);
  int id = 1000000 + (int)serial;
  std::size_t fixed = 0;
  std::unique_ptr<AllocationStrategy> s;
  int k = (int)c.below(NK);
  std::map<char*, std::size_t> live;
  spy->busy = [&](Addr p, std::size_t n) -> std::string {
    if (k == MONO || k == SLOT) return "";
    for (auto& l : live)
      if ((Addr)l.first < p + n && (Addr)l.first + l.second > p) return "a block was returned to the parent while an allocation inside it was live";
    return "";
  };
  std::size_t align = 16;
  switch (k) {
    case QUICK: s.reset(new st::QuickPool(nm, id, leaf, c.size(2000), c.size(500), align = std::size_t{8} << c.below(4))); break;
    case LIST: s.reset(new st::DynamicPoolList(nm, id, leaf, c.size(2000), c.size(500), align = std::size_t{8} << c.below(4))); break;
    case FIXED: fixed = 8 * c.range(1, 8); s.reset(new st::FixedPool(nm, id, leaf, fixed, c.range(1, 70))); break;
    case MIXED: s.reset(new st::MixedPool(nm, id, leaf, c.chance(1, 2) ? 256 : 64, 1 << 14, 1 << 12, c.chance(1, 2) ? 16 : 2, 4096, 1024)); break;
    case MONO: s.reset(new st::MonotonicAllocationStrategy(nm, id, leaf, c.size(3000))); break;
    case SLOT: s.reset(new st::SlotPool(nm, id, leaf, c.range(1, 12))); break;
    case LIMIT: s.reset(new st::SizeLimiter(nm, id, leaf, c.size(20000))); break;
    case TSAFE: s.reset(new st::ThreadSafeAllocator(nm, id, leaf)); break;
    case ALIGN: s.reset(new st::AlignedAllocator(nm, id, leaf, std::size_t{16} << c.below(5))); break;
    case NAMED: s.reset(new st::NamedAllocationStrategy(nm, id, leaf)); break;
    default: s.reset(new st::NamingShim(nm, id, leaf)); break;
  }
  c.label(kname[k]);
  c.trace("%s", kname[k]);
  bool leave = c.chance(1, 4);
  unsigned frees = 0;
  auto drop = [&](std::map<char*, std::size_t>::iterator it) {
    char* p = it->first;
    std::size_t n = it->second;
    live.erase(it);
    s->deallocate_internal(p, n);
    ++frees;
  };
  while (c.more(80)) {
    c.step();
    switch (c.weighted({8, 5, 1, 1})) {
      case 0: {
        std::size_t n = fixed ? fixed : c.size(700);
        char* p;
        try {
          p = static_cast<char*>(s->allocate_internal(n));
        } catch (umpire::runtime_error&) {
          break;
        }
        c.trace("allocate %zu", n);
        memset(p, 1, n);
        live[p] = n;
        break;
      }
      case 1:
        if (!live.empty()) {
          auto it = live.begin();
          std::advance(it, c.below(live.size()));
          c.trace("free %zu", it->second);
          drop(it);
        }
        break;
      case 2:
        if (k != MIXED) {
          c.trace("release");
          s->release();
        }
        break;
      default:
        if (k == QUICK) static_cast<st::QuickPool*>(s.get())->coalesce();
        if (k == LIST) static_cast<st::DynamicPoolList*>(s.get())->coalesce();
        break;
    }
  }
  if (!leave)
    while (!live.empty()) drop(live.begin());
  c.trace("destroy with %zu live", live.size());
  bool held = !spy->live.empty();
  s.reset();
  PCHECK(c, spy->error.empty(), "parent-protocol", "%s: %s", kname[k], spy->error.c_str());
  if (live.empty())
    PCHECK(c, spy->live.empty(), "not-returned", "destroying an idle %s left %zu blocks (%zu bytes) at its parent", kname[k], spy->live.size(), spy->outstanding);
  if (frees && held) c.nontrivial();
  spy->busy = nullptr;
}

} // namespace

int main(int argc, char** argv)
{
  Settings s;
  std::string suite = arg(argc, argv, "--suite");
  if (suite == "destroy")
    return run_main(argc, argv, {{"destroy", 1, 16, destroy, "an allocation was freed and blocks were still held when the strategy was destroyed"}}, s);
  return run_main(argc, argv, {{"exit", 1, 1, at_exit, "more than five operations before exit"}}, s);
}
