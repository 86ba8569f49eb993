// C31, C32: allocators over memory of other platforms. The memory of a simulated device is mapped twice: the address Umpire
// sees has no access rights, so that any touch by the host ends the process; the registered operations and the oracle use the other mapping.
#include "world.hpp"

#include <sys/mman.h>

#include "camp/resource.hpp"
#include "umpire/op/MemoryOperation.hpp"
#include "umpire/op/MemoryOperationRegistry.hpp"
#include "umpire/op/GenericReallocateOperation.hpp"
#include "umpire/resource/MemoryResource.hpp"
#include "umpire/resource/MemoryResourceFactory.hpp"
#include "umpire/resource/MemoryResourceRegistry.hpp"
#include "umpire/strategy/AllocationAdvisor.hpp"
#include "umpire/strategy/AllocationPrefetcher.hpp"
#include "umpire/util/AllocationRecord.hpp"

using namespace pbt;
using umpire::Allocator;
using umpire::MemoryResourceTraits;
using umpire::Platform;
namespace st = umpire::strategy;
typedef std::vector<unsigned char> Bytes;

namespace {

constexpr std::size_t ARENA = 48u << 20;
char* g_dev = nullptr;   // no access
char* g_alias = nullptr; // the same memory
std::size_t g_top = 0;
bool g_full = false; // the arena was too small

bool on_device(const void* p)
{
  return (const char*)p >= g_dev && (const char*)p < g_dev + ARENA;
}
char* reach(void* p)
{
  return on_device(p) ? g_alias + ((char*)p - g_dev) : (char*)p;
}

struct Call {
  std::string op;
  Platform from, to;
  char *src, *dst;
  std::size_t n;
  int value;
  bool async;
};
std::vector<Call> g_calls;
int g_fail = -1; // the simulated operation that fails
struct Range {
  char* p;
  std::size_t n;
  int dev;
};
std::vector<Range> g_advised; // ranges for which an advice or prefetch operation ran

struct SimOp : umpire::op::MemoryOperation {
  std::string name;
  Platform from, to;
  SimOp(std::string n, Platform f, Platform t) : name(n), from(f), to(t) {}
  void fail()
  {
    if (g_fail > 0) --g_fail;
    else if (g_fail == 0) {
      g_fail = -1;
      throw umpire::runtime_error("the simulated device refuses " + name, __FILE__, __LINE__);
    }
  }
  void tr(void* s, void** d, std::size_t n, bool async)
  {
    g_calls.push_back({name, from, to, (char*)s, (char*)*d, n, 0, async});
    fail();
    if (n) memmove(reach(*d), reach(s), n);
  }
  void ap(void* s, int v, std::size_t n, bool async)
  {
    g_calls.push_back({name, from, to, (char*)s, nullptr, n, v, async});
    fail();
    if (name == "MEMSET") {
      if (n) memset(reach(s), v, n);
    } else
      g_advised.push_back({(char*)s, n, v});
  }
  void transform(void* s, void** d, umpire::util::AllocationRecord*, umpire::util::AllocationRecord*, std::size_t n) override { tr(s, d, n, false); }
  camp::resources::EventProxy<camp::resources::Resource> transform_async(void* s, void** d, umpire::util::AllocationRecord*, umpire::util::AllocationRecord*,
                                                                          std::size_t n, camp::resources::Resource& ctx) override
  {
    tr(s, d, n, true);
    return camp::resources::EventProxy<camp::resources::Resource>{ctx};
  }
  void apply(void* s, umpire::util::AllocationRecord*, int v, std::size_t n) override { ap(s, v, n, false); }
  camp::resources::EventProxy<camp::resources::Resource> apply_async(void* s, umpire::util::AllocationRecord*, int v, std::size_t n, camp::resources::Resource& ctx) override
  {
    ap(s, v, n, true);
    return camp::resources::EventProxy<camp::resources::Resource>{ctx};
  }
};

// what the simulated machine can do: cuda everything, omp_target no memset, hip only copies to the device and memset, sycl nothing
const Platform HOST = Platform::host, CUDA = Platform::cuda, OMP = Platform::omp_target, HIP = Platform::hip, SYCL = Platform::sycl, NONE = Platform::undefined;
std::set<std::pair<std::string, std::pair<int, int>>> g_ops;
bool has(const std::string& op, Platform a, Platform b)
{
  return g_ops.count({op, {(int)a, (int)b}}) > 0;
}

class SimResource : public umpire::resource::MemoryResource {
 public:
  SimResource(const std::string& name, int id, MemoryResourceTraits t, Platform p, unsigned mask) : MemoryResource(name, id, t), m_p(p), m_mask(mask) {}
  void* allocate(std::size_t bytes) override
  {
    std::size_t n = (bytes + 255) / 256 * 256;
    if (bytes > ARENA || n > ARENA - g_top || deny) {
      if (deny) --deny;
      else g_full = true;
      UMPIRE_ERROR(umpire::out_of_memory_error, fmt::format("simulated device is full: {}", bytes));
    }
    char* p = g_dev + g_top;
    g_top += n;
    live[p] = bytes;
    out += bytes;
    return p;
  }
  void deallocate(void* p, std::size_t size) override
  {
    auto it = live.find((char*)p);
    if (it == live.end()) {
      if (error.empty()) error = "a block that is not live was given back";
      return;
    }
    if (it->second != size && size && error.empty()) error = "a block was given back with another size";
    out -= it->second;
    live.erase(it);
  }
  Platform getPlatform() noexcept override { return m_p; }
  bool isAccessibleFrom(Platform p) noexcept override { return m_mask & (unsigned)p; }
  std::map<char*, std::size_t> live;
  std::size_t out{0};
  unsigned deny{0};
  std::string error;
  Platform m_p;
  unsigned m_mask;
};

struct Factory : umpire::resource::MemoryResourceFactory {
  static Platform next;
  static unsigned mask;
  static SimResource* last;
  bool isValidMemoryResourceFor(const std::string& name) noexcept override
  {
    return name.find("DEVICE") != std::string::npos || name.find("UM") == 0 || name.find("PINNED") == 0;
  }
  std::unique_ptr<umpire::resource::MemoryResource> create(const std::string& name, int id) override { return create(name, id, getDefaultTraits()); }
  std::unique_ptr<umpire::resource::MemoryResource> create(const std::string& name, int id, MemoryResourceTraits t) override
  {
    last = new SimResource(name, id, t, next, mask);
    return std::unique_ptr<umpire::resource::MemoryResource>(last);
  }
  MemoryResourceTraits getDefaultTraits() override
  {
    MemoryResourceTraits t;
    t.resource = MemoryResourceTraits::resource_type::device;
    return t;
  }
};
Platform Factory::next = Platform::cuda;
unsigned Factory::mask = 0;
SimResource* Factory::last = nullptr;

void machine()
{
  static bool done = false;
  if (done) return;
  done = true;
  int fd = memfd_create("sim", 0);
  if (fd < 0 || ftruncate(fd, ARENA)) abort();
  g_alias = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  g_dev = (char*)mmap(nullptr, ARENA, PROT_NONE, MAP_SHARED, fd, 0);
  if (g_alias == MAP_FAILED || g_dev == MAP_FAILED) abort();
  close(fd);
  auto& rm = umpire::ResourceManager::getInstance();
  rm.getAllocator("HOST");
  umpire::resource::MemoryResourceRegistry::getInstance().registerMemoryResource(std::unique_ptr<umpire::resource::MemoryResourceFactory>(new Factory));
  auto& reg = umpire::op::MemoryOperationRegistry::getInstance();
  auto add = [&](const char* op, Platform a, Platform b) {
    reg.registerOperation(op, std::make_pair(a, b), std::make_shared<SimOp>(op, a, b));
    g_ops.insert({op, {(int)a, (int)b}});
  };
  add("COPY", HOST, CUDA);
  add("COPY", CUDA, HOST);
  add("COPY", CUDA, CUDA);
  add("COPY", HOST, OMP);
  add("COPY", OMP, HOST);
  add("COPY", OMP, OMP);
  add("COPY", HOST, HIP);
  add("COPY", CUDA, OMP);
  add("MEMSET", CUDA, CUDA);
  add("MEMSET", HIP, HIP);
  add("PREFETCH", CUDA, CUDA);
  add("SET_READ_MOSTLY", CUDA, CUDA);
  add("SET_PREFERRED_LOCATION", CUDA, CUDA);
  add("SET_PREFERRED_LOCATION", OMP, OMP);
  for (Platform p : {CUDA, OMP}) {
    reg.registerOperation("REALLOCATE", std::make_pair(p, p), std::make_shared<umpire::op::GenericReallocateOperation>());
    g_ops.insert({"REALLOCATE", {(int)p, (int)p}});
  }
  g_ops.insert({"REALLOCATE", {(int)NONE, (int)NONE}});
  g_ops.insert({"REALLOCATE", {(int)HOST, (int)HOST}});
  g_ops.insert({"COPY", {(int)HOST, (int)HOST}});
  g_ops.insert({"MEMSET", {(int)HOST, (int)HOST}});
}

struct Node {
  Allocator a;
  int parent{-1}, root{-1};
  std::string type; // strategy name
  bool picky{false}; // may refuse for want of room
  std::size_t fixed{0}, slots{0};
  int dev{-1}; // advice or prefetch device
  bool pool{false};
  bool mono{false};
  std::set<int> devs; // devices of the advisors on the way down
  bool tracked{true};
  bool drift{false}; // an untracked allocator above frees without sizes, so the numbers down here drift
};
struct Root {
  SimResource* r{nullptr}; // null: HOST
  Platform p;
  unsigned mask;
  MemoryResourceTraits t;
};
struct Live {
  char* p;
  std::size_t n;
  int node;
  Bytes data;
};

bool same(const MemoryResourceTraits& a, const MemoryResourceTraits& b)
{
  return a.unified == b.unified && a.ipc == b.ipc && a.size == b.size && a.vendor == b.vendor && a.kind == b.kind && a.used_for == b.used_for &&
         a.resource == b.resource && a.scope == b.scope && a.granularity == b.granularity && a.id == b.id;
}

struct W {
  Ctx& c;
  umpire::ResourceManager& rm;
  std::vector<Root> roots;
  std::vector<Node> nodes; // nodes[i] is the root allocator of roots[i] for i < roots.size()
  std::vector<Live> live;
  std::vector<std::size_t> base_count, base_size; // what HOST held before
  std::string u;
  bool nature;
  unsigned refused{0}, dispatched{0}, failed{0};

  W(Ctx& c_, bool n) : c(c_), rm(umpire::ResourceManager::getInstance()), nature(n) {}

  Platform plat(int node) { return roots[nodes[node].root].p; }

  MemoryResourceTraits traits()
  {
    using T = MemoryResourceTraits;
    T t;
    t.id = 0;
    t.unified = c.chance(1, 2);
    t.ipc = c.chance(1, 2);
    t.size = c.below(1000);
    t.vendor = (T::vendor_type)c.below(5);
    t.kind = (T::memory_type)c.below(5);
    t.used_for = (T::optimized_for)c.below(4);
    t.resource = (T::resource_type)c.weighted({1, 1, 2, 1, 1, 6, 1, 1});
    t.scope = (T::shared_scope)c.below(3);
    t.granularity = (T::granularity_type)c.below(3);
    return t;
  }

  void make_roots()
  {
    static unsigned serial = 0;
    u = "_" + std::to_string(serial++);
    Root h;
    h.p = HOST;
    h.mask = 0;
    Node hn;
    hn.a = rm.getAllocator("HOST");
    hn.root = 0;
    hn.type = hn.a.getStrategyName();
    h.t = hn.a.getAllocationStrategy()->getTraits();
    roots.push_back(h);
    nodes.push_back(hn);
    unsigned n = 1 + (unsigned)c.below(3);
    for (unsigned i = 0; i < n; ++i) {
      Root r;
      r.p = c.pick<Platform>({CUDA, OMP, HIP, SYCL, NONE, CUDA});
      r.mask = (unsigned)c.below(32);
      r.t = traits();
      Factory::next = r.p;
      Factory::mask = r.mask;
      static int dev = 0;
      r.t.id = dev++;
      std::string name = "DEVICE::" + std::to_string(r.t.id);
      if (c.chance(1, 4)) {
        name = (c.chance(1, 2) ? "UM::" : "PINNED::") + std::to_string(r.t.id);
        if (c.chance(1, 2)) {
          name += "::COARSE";
          r.t.granularity = MemoryResourceTraits::granularity_type::coarse_grained;
        } else if (c.chance(1, 2)) {
          name += "::FINE";
          r.t.granularity = MemoryResourceTraits::granularity_type::fine_grained;
        }
      }
      Node nd;
      MemoryResourceTraits given = r.t;
      if (name.find("DEVICE") == 0) given.id = -3; // the name decides
      nd.a = rm.makeResource(name, given);
      nd.root = (int)roots.size();
      nd.type = nd.a.getStrategyName();
      r.r = Factory::last;
      c.trace("%s: platform %d, accessible from %x, resource type %d", name.c_str(), (int)r.p, r.mask, (int)r.t.resource);
      roots.push_back(r);
      nodes.push_back(nd);
    }
  }

  void grow_tree()
  {
    int par = (int)c.below(nodes.size());
    if (nodes[par].parent >= 0 && c.chance(1, 2)) par = 1 + (int)c.below(roots.size() - 1);
    Node n;
    n.parent = par;
    n.root = nodes[par].root;
    n.devs = nodes[par].devs;
    n.picky = nodes[par].picky;
    n.fixed = nodes[par].fixed; // what stands on a fixed-size pool can only hand its objects on
    Allocator pa = nodes[par].a;
    static unsigned serial = 0;
    std::string nm = "n" + std::to_string(serial++) + u;
    bool expect = true; // can be made
    Platform p = plat(par);
    auto& reg = rm;
    auto before = reg.getAllocatorNames();
    auto count = pa.getAllocationCount();
    auto size = pa.getCurrentSize();
    try {
      static const int passing[] = {0, 3, 4, 8, 10, 11, 13};
      switch (n.fixed ? passing[c.below(7)] : (int)c.below(14)) {
        case 0: n.type = "SizeLimiter"; n.picky = true; n.a = rm.makeAllocator<st::SizeLimiter>(nm, pa, 1 + c.below(1 << 20)); break;
        case 1: n.type = "QuickPool"; n.pool = true; n.a = rm.makeAllocator<st::QuickPool>(nm, pa, c.size(20000), c.size(4000), std::size_t{1} << c.range(3, 8)); break;
        case 2: n.type = "DynamicPoolList"; n.pool = true; n.a = rm.makeAllocator<st::DynamicPoolList>(nm, pa, c.size(20000), c.size(4000), std::size_t{1} << c.range(3, 8)); break;
        case 3: n.type = "ThreadSafeAllocator"; n.a = rm.makeAllocator<st::ThreadSafeAllocator>(nm, pa); break;
        case 4: n.type = "NamedAllocationStrategy"; n.a = rm.makeAllocator<st::NamedAllocationStrategy>(nm, pa); break;
        case 5: n.type = "FixedPool"; n.pool = true; n.fixed = 8 * c.range(1, 40); n.a = rm.makeAllocator<st::FixedPool>(nm, pa, n.fixed, c.range(1, 40)); break;
        case 6: n.type = "MixedPool"; n.pool = true; n.a = rm.makeAllocator<st::MixedPool>(nm, pa, 64, 1024, 4096, 2, c.size(20000), c.size(4000), 16); break;
        case 7: n.type = "MonotonicAllocationStrategy"; n.pool = n.picky = n.mono = true; n.a = rm.makeAllocator<st::MonotonicAllocationStrategy>(nm, pa, c.size(5000)); break;
        case 8: n.type = "NamingShim"; n.a = rm.makeAllocator<st::NamingShim>(nm, pa); break;
        case 9:
          n.type = "AlignedAllocator";
          expect = p == HOST;
          n.a = rm.makeAllocator<st::AlignedAllocator>(nm, pa, 64);
          break;
        case 10: {
          n.type = "AllocationAdvisor";
          std::string what = c.pick<std::string>({"SET_READ_MOSTLY", "SET_PREFERRED_LOCATION"});
          expect = has(what, p, p);
          n.dev = 100 + (int)serial;
          bool other = c.chance(1, 2);
          n.a = other ? rm.makeAllocator<st::AllocationAdvisor>(nm, pa, what, nodes[c.below(nodes.size())].a, n.dev)
                      : rm.makeAllocator<st::AllocationAdvisor>(nm, pa, what, n.dev);
          break;
        }
        case 11:
          n.type = "AllocationPrefetcher";
          expect = has("PREFETCH", p, p);
          n.dev = 100 + (int)serial;
          n.a = rm.makeAllocator<st::AllocationPrefetcher>(nm, pa, n.dev);
          break;
        case 12: n.type = "SlotPool"; n.pool = n.picky = true; n.slots = c.range(1, 6); n.a = rm.makeAllocator<st::SlotPool>(nm, pa, n.slots); break;
        default: {
          n.tracked = false;
          n.type = "ThreadSafeAllocator";
          n.a = rm.makeAllocator<st::ThreadSafeAllocator>(nm, umpire::Tracking::Untracked, pa);
          break;
        }
      }
    } catch (umpire::runtime_error& e) {
      bool oom = dynamic_cast<umpire::out_of_memory_error*>(&e) || n.picky;
      PCHECK(c, !expect || oom, "make-refused", "%s over \"%s\" could not be made: %s", n.type.c_str(), pa.getName().c_str(), e.what());
      c.trace("%s over %s refused", n.type.c_str(), pa.getName().c_str());
      PCHECK(c, !rm.isAllocator(nm) && rm.getAllocatorNames() == before, "make-residue", "a refused %s stayed registered", n.type.c_str());
      PCHECK(c, pa.getAllocationCount() == count && (nodes[par].mono || pa.getCurrentSize() == size), "make-residue", "a refused %s left memory allocated at its parent", n.type.c_str());
      ++refused;
      return;
    }
    PCHECK(c, expect, "make-accepted", "%s was made over \"%s\" although the platform does not support it", n.type.c_str(), pa.getName().c_str());
    if (n.dev >= 0) n.devs.insert(n.dev);
    c.trace("#%zu = %s over %s", nodes.size(), n.type.c_str(), pa.getName().c_str());
    nodes.push_back(n);
    if (!n.tracked)
      for (int k = par; k >= 0; k = nodes[k].parent) nodes[k].drift = true;
  }

  void check_content(const Live& l)
  {
    const unsigned char* m = (const unsigned char*)reach(l.p);
    if (l.n && memcmp(m, l.data.data(), l.n)) {
      std::size_t i = 0;
      while (m[i] == l.data[i]) ++i;
      c.fail("content", "byte %zu of %zu of an allocation from %s is %02x, it should be %02x", i, l.n, nodes[l.node].a.getName().c_str(), m[i], l.data[i]);
    }
  }

  void check_nature()
  {
    for (auto& n : nodes) {
      const Root& r = roots[n.root];
      const char* nm = n.a.getName().c_str();
      PCHECK(c, n.a.getPlatform() == r.p, "platform", "the platform of %s (%s) is %d, its resource's is %d", nm, n.type.c_str(), (int)n.a.getPlatform(), (int)r.p);
      auto t = n.a.getAllocationStrategy()->getTraits();
      PCHECK(c, same(t, r.t), "traits", "the traits of %s (%s) are not those of its resource", nm, n.type.c_str());
      PCHECK(c, n.a.getStrategyName() == n.type, "strategy-name", "%s is a %s and calls itself %s", nm, n.type.c_str(), n.a.getStrategyName().c_str());
      auto* par = n.a.getParent();
      PCHECK(c, par == (n.parent < 0 ? nullptr : nodes[n.parent].a.getAllocationStrategy()), "parent", "the parent of %s (%s) is another allocator", nm, n.type.c_str());
      PCHECK(c, n.a.isTracked() == n.tracked, "tracked", "%s says isTracked = %d", nm, (int)n.a.isTracked());
      if (r.r)
        for (Platform p : {HOST, CUDA, OMP, HIP, SYCL, NONE})
          PCHECK(c, umpire::is_accessible(p, n.a) == bool(r.mask & (unsigned)p), "accessible", "is_accessible(%d, %s) is %d, its resource says otherwise", (int)p, nm,
                 (int)umpire::is_accessible(p, n.a));
      else
        PCHECK(c, umpire::is_accessible(HOST, n.a), "accessible", "host memory is not accessible from the host");
      auto again = rm.getAllocator(n.a.getName());
      PCHECK(c, again.getAllocationStrategy() == n.a.getAllocationStrategy() && again.getPlatform() == r.p, "registry", "%s is another allocator when asked for by name", nm);
    }
  }

  // everything the library says and holds agrees with the model
  void verify(const char* after)
  {
    std::vector<std::size_t> cnt(nodes.size(), 0), sz(nodes.size(), 0);
    for (auto& l : live) {
      check_content(l);
      Node& n = nodes[l.node];
      if (n.tracked) {
        PCHECK(c, rm.hasAllocator(l.p) && rm.getSize(l.p) == l.n, "record", "after %s: a live allocation of %zu bytes from %s is not known as such", after, l.n, n.a.getName().c_str());
        PCHECK(c, rm.getAllocator((void*)l.p).getId() == n.a.getId(), "owner", "after %s: an allocation from %s belongs to %s", after, n.a.getName().c_str(),
               rm.getAllocator((void*)l.p).getName().c_str());
      }
      if (l.n && roots[n.root].r) {
        PCHECK(c, on_device(l.p) && on_device(l.p + l.n - 1), "elsewhere", "after %s: an allocation from %s is not memory of its resource", after, n.a.getName().c_str());
        for (int d : n.devs) {
          bool ok = false;
          for (auto& a : g_advised) ok = ok || (a.dev == d && a.p <= l.p && l.p + l.n <= a.p + a.n);
          PCHECK(c, ok, "not-advised", "after %s: an allocation from %s lies outside the ranges that were advised or prefetched for device %d", after, n.a.getName().c_str(), d);
        }
      }
    }
    // bytes at each resource = bytes its children and users hold
    for (std::size_t i = 1; i < roots.size(); ++i) {
      SimResource* r = roots[i].r;
      PCHECK(c, r->error.empty(), "give-back", "after %s: %s", after, r->error.c_str());
      bool sum = true;
      std::size_t want = 0, blocks = 0;
      for (std::size_t k = 0; k < nodes.size(); ++k)
        if (nodes[k].parent == (int)i) {
          if (nodes[k].pool || !nodes[k].tracked || nodes[k].drift) sum = false; // a pool takes more than it shows
          else {
            want += nodes[k].a.getCurrentSize();
            blocks += nodes[k].a.getAllocationCount();
          }
        }
      for (auto& l : live)
        if (l.node == (int)i && l.n) {
          want += l.n;
          ++blocks;
        }
      bool zero = false;
      for (auto& l : live) zero = zero || !l.n;
      if (sum) PCHECK(c, r->out == want, "leak", "after %s: %zu bytes of %s are in use, its users hold %zu", after, r->out, nodes[i].a.getName().c_str(), want);
      if (sum && !zero) PCHECK(c, r->live.size() == blocks, "leak", "after %s: %zu blocks of %s are in use, its users hold %zu", after, r->live.size(), nodes[i].a.getName().c_str(), blocks);
    }
    for (auto& l : live) {
      cnt[l.node]++;
      sz[l.node] += l.n;
    }
    for (std::size_t k = roots.size(); k < nodes.size(); ++k) {
      bool leaf = nodes[k].tracked;
      for (auto& n : nodes) leaf = leaf && n.parent != (int)k;
      if (!leaf) continue;
      if (nodes[k].mono) continue;
      PCHECK(c, nodes[k].a.getAllocationCount() == cnt[k] && nodes[k].a.getCurrentSize() == sz[k], "stats", "after %s: %s (%s) reports %zu allocations of %zu bytes; %zu of %zu are live",
             after, nodes[k].a.getName().c_str(), nodes[k].type.c_str(), nodes[k].a.getAllocationCount(), nodes[k].a.getCurrentSize(), cnt[k], sz[k]);
    }
    if (nature) check_nature();
  }

  void fill(Live& l)
  {
    l.data.resize(l.n);
    unsigned s = (unsigned)c.below(256);
    for (std::size_t i = 0; i < l.n; ++i) l.data[i] = (unsigned char)(s + i * 7);
    if (l.n) memcpy(reach(l.p), l.data.data(), l.n); // a kernel on the device, or the host
  }

  bool alloc(int node, bool tracked_only, std::size_t n)
  {
    Node& nd = nodes[node];
    if (tracked_only && !nd.tracked) return false;
    if (nd.fixed && n) n = nd.fixed;
    SimResource* r = roots[nd.root].r;
    bool deny = r && c.chance(1, 12);
    bool opfail = !nd.devs.empty() && c.chance(1, 6);
    if (deny) r->deny = 1;
    if (opfail) g_fail = (int)c.below(2);
    std::size_t calls = g_calls.size();
    g_full = false;
    c.trace("allocate %zu from %s%s%s", n, nd.a.getName().c_str(), deny ? ", the resource refuses" : "", opfail ? ", an advice fails" : "");
    Live l;
    l.n = n;
    l.node = node;
    try {
      l.p = (char*)(c.chance(1, 3) ? nd.a.allocate("nm", n) : nd.a.allocate(n));
    } catch (umpire::runtime_error& e) {
      if (g_full) c.label("arena-full");
      bool opened = opfail && g_fail < 0;
      bool denied = deny && !r->deny;
      if (r) r->deny = 0;
      g_fail = -1;
      PCHECK(c, denied || opened || nd.picky || g_full, "alloc-refused", "%zu bytes from %s were refused: %s", n, nd.a.getName().c_str(), e.what());
      ++failed;
      verify("a refused allocation");
      return false;
    }
    if (r) r->deny = 0;
    g_fail = -1;
    if (nd.dev >= 0 && n && !opfail) { // the advice of this very allocation
      bool ok = false;
      for (std::size_t i = calls; i < g_calls.size(); ++i) ok = ok || (g_calls[i].src == l.p && g_calls[i].n == n && g_calls[i].value == nd.dev);
      PCHECK(c, ok, "advice", "%zu bytes from %s were not advised as a whole for device %d", n, nd.a.getName().c_str(), nd.dev);
    }
    PCHECK(c, l.p, "null", "allocate returned null");
    fill(l);
    live.push_back(l);
    return true;
  }

  void free_at(std::size_t i, bool viarm)
  {
    Live l = live[i];
    check_content(l);
    live.erase(live.begin() + i);
    c.trace("free %zu bytes from %s", l.n, nodes[l.node].a.getName().c_str());
    if (viarm && nodes[l.node].tracked) rm.deallocate(l.p);
    else nodes[l.node].a.deallocate(l.p);
  }

  std::string call_text(std::size_t from)
  {
    std::string s;
    for (std::size_t i = from; i < g_calls.size() && i < from + 3; ++i) {
      char b[200];
      snprintf(b, sizeof b, "%s %d->%d %zu bytes%s; ", g_calls[i].op.c_str(), (int)g_calls[i].from, (int)g_calls[i].to, g_calls[i].n, g_calls[i].async ? " async" : "");
      s += b;
    }
    return s;
  }
  // exactly these calls of simulated operations happened since `from`
  void expect_calls(std::size_t from, const std::vector<Call>& want, const char* what)
  {
    bool ok = g_calls.size() - from == want.size();
    for (std::size_t i = 0; ok && i < want.size(); ++i) {
      const Call &g = g_calls[from + i], &w = want[i];
      ok = g.op == w.op && g.from == w.from && g.to == w.to && g.src == w.src && (w.dst ? g.dst == w.dst : true) && g.n == w.n && g.value == w.value && g.async == w.async;
    }
    std::string w;
    for (auto& x : want) w += x.op + " of " + std::to_string(x.n) + " bytes" + (x.async ? " async; " : "; ");
    PCHECK(c, ok, "dispatch", "%s: expected the operations [%s], the device ran [%s]", what, w.c_str(), call_text(from).c_str());
    dispatched += !want.empty();
  }

  int tracked_live(std::size_t skip = ~std::size_t{0})
  {
    std::vector<int> v;
    for (std::size_t i = 0; i < live.size(); ++i)
      if (nodes[live[i].node].tracked && i != skip) v.push_back((int)i);
    return v.empty() ? -1 : v[c.below(v.size())];
  }

  void copy()
  {
    int s = tracked_live();
    if (s < 0) return;
    int d = tracked_live((std::size_t)s);
    if (d < 0) return;
    Live &S = live[s], &D = live[d];
    std::size_t so = S.n && c.chance(1, 3) ? c.below(S.n) : 0, dof = D.n && c.chance(1, 3) ? c.below(D.n) : 0;
    std::size_t n = c.chance(1, 4) ? 0 : c.chance(1, 6) ? c.below(2000) : (std::min(S.n - so, D.n - dof) ? 1 + c.below(std::min(S.n - so, D.n - dof)) : 0);
    std::size_t real = n ? n : S.n - so;
    if (real > S.n - so) return; // reading past the source is the caller's fault
    bool async = c.chance(1, 3), fault = c.chance(1, 8);
    Platform a = plat(S.node), b = plat(D.node);
    bool can = has("COPY", a, b), fits = real <= D.n - dof;
    bool sim = can && !(a == HOST && b == HOST);
    if (fault && sim) g_fail = 0;
    else fault = false;
    std::size_t from = g_calls.size();
    g_full = false;
    c.trace("copy %zu bytes (%zu) from %s to %s%s%s", n, real, nodes[S.node].a.getName().c_str(), nodes[D.node].a.getName().c_str(), async ? " async" : "", fault ? ", fails" : "");
    bool thrown = false;
    try {
      if (async) {
        camp::resources::Resource ctx{camp::resources::Host{}};
        rm.copy(D.p + dof, S.p + so, ctx, n);
      } else
        rm.copy(D.p + dof, S.p + so, n);
    } catch (umpire::runtime_error&) {
      thrown = true;
    }
    g_fail = -1;
    PCHECK(c, thrown == (!can || !fits || fault), "copy-verdict", "copy of %zu bytes from platform %d to %d into %zu bytes %s", real, (int)a, (int)b, D.n - dof,
           thrown ? "was refused" : "was accepted");
    std::vector<Call> want;
    if (sim && fits) want.push_back({"COPY", a, b, S.p + so, D.p + dof, real, 0, async});
    expect_calls(from, want, "copy");
    if (!thrown) std::copy(S.data.begin() + so, S.data.begin() + so + real, D.data.begin() + dof);
    else ++refused;
    verify("copy");
  }

  void set()
  {
    int s = tracked_live();
    if (s < 0) return;
    Live& S = live[s];
    std::size_t so = S.n && c.chance(1, 3) ? c.below(S.n) : 0;
    std::size_t n = c.chance(1, 4) ? 0 : c.chance(1, 6) ? c.below(2000) : (S.n - so ? 1 + c.below(S.n - so) : 0);
    std::size_t real = n ? n : S.n - so;
    bool async = c.chance(1, 3), fault = c.chance(1, 8);
    int v = (int)c.below(256);
    Platform a = plat(S.node);
    bool can = has("MEMSET", a, a), fits = real <= S.n - so, sim = can && a != HOST;
    if (fault && sim) g_fail = 0;
    else fault = false;
    std::size_t from = g_calls.size();
    g_full = false;
    c.trace("memset %zu bytes of %s%s%s", n, nodes[S.node].a.getName().c_str(), async ? " async" : "", fault ? ", fails" : "");
    bool thrown = false;
    try {
      if (async) {
        camp::resources::Resource ctx{camp::resources::Host{}};
        rm.memset(S.p + so, v, ctx, n);
      } else
        rm.memset(S.p + so, v, n);
    } catch (umpire::runtime_error&) {
      thrown = true;
    }
    g_fail = -1;
    PCHECK(c, thrown == (!can || !fits || fault), "memset-verdict", "memset of %zu of %zu bytes on platform %d %s", real, S.n - so, (int)a, thrown ? "was refused" : "was accepted");
    std::vector<Call> want;
    if (sim && fits) want.push_back({"MEMSET", a, a, S.p + so, nullptr, real, v, async});
    expect_calls(from, want, "memset");
    if (!thrown) std::fill(S.data.begin() + so, S.data.begin() + so + real, (unsigned char)v);
    else ++refused;
    verify("memset");
  }

  void prefetch()
  {
    int s = tracked_live();
    if (s < 0) return;
    Live& S = live[s];
    std::size_t so = S.n && c.chance(1, 3) ? c.below(S.n) : 0;
    Platform a = plat(S.node);
    bool can = has("PREFETCH", a, a) && roots[nodes[S.node].root].t.resource == MemoryResourceTraits::resource_type::um;
    int dev = (int)c.below(5);
    camp::resources::Resource ctx{camp::resources::Host{}};
    std::size_t from = g_calls.size();
    g_full = false;
    bool thrown = false;
    c.trace("prefetch %s", nodes[S.node].a.getName().c_str());
    try {
      rm.prefetch(S.p + so, dev, ctx);
    } catch (umpire::runtime_error&) {
      thrown = true;
    }
    PCHECK(c, thrown == !can, "prefetch-verdict", "prefetch on platform %d, resource type %d %s", (int)a, (int)roots[nodes[S.node].root].t.resource, thrown ? "was refused" : "was accepted");
    std::vector<Call> want;
    if (can) want.push_back({"PREFETCH", a, a, S.p + so, nullptr, S.n - so, dev, true});
    expect_calls(from, want, "prefetch");
    verify("prefetch");
  }

  // only the data movement among the calls: growing a pool may advise or prefetch
  std::vector<Call> moves(std::size_t from)
  {
    std::vector<Call> v;
    for (std::size_t i = from; i < g_calls.size(); ++i)
      if (g_calls[i].op == "COPY" || g_calls[i].op == "MEMSET") v.push_back(g_calls[i]);
    return v;
  }

  void realloc()
  {
    int s = tracked_live();
    if (s < 0) return;
    Live S = live[s];
    Node& nd = nodes[S.node];
    if (nd.fixed || nd.picky) return;
    std::size_t n = c.chance(1, 10) ? 0 : c.size(3000);
    bool async = c.chance(1, 3), fault = c.chance(1, 6), given = c.chance(1, 3);
    Platform a = plat(S.node);
    bool can = n == 0 || a == HOST || (has("REALLOCATE", a, a) && has("COPY", a, a));
    bool advises = !nd.devs.empty();
    SimResource* r = roots[nd.root].r;
    bool deny = r && n && can && c.chance(1, 10);
    if (fault && can && n && a != HOST) g_fail = 0;
    else fault = false;
    if (deny) r->deny = 1;
    std::size_t from = g_calls.size();
    g_full = false;
    c.trace("reallocate %zu -> %zu bytes of %s%s%s%s", S.n, n, nd.a.getName().c_str(), async ? " async" : "", fault ? ", an operation fails" : "", deny ? ", the resource refuses" : "");
    bool thrown = false;
    char* q = nullptr;
    try {
      camp::resources::Resource ctx{camp::resources::Host{}};
      q = (char*)(async ? (given ? rm.reallocate(S.p, n, nd.a, ctx) : rm.reallocate(S.p, n, ctx)) : (given ? rm.reallocate(S.p, n, nd.a) : rm.reallocate(S.p, n)));
    } catch (umpire::runtime_error&) {
      thrown = true;
    }
    bool faulted = fault && g_fail < 0, denied = deny && !r->deny;
    g_fail = -1;
    if (r) r->deny = 0;
    // a pool asks again after a refusal, so a refusal need not end the operation
    PCHECK(c, thrown ? (!can || faulted || denied || g_full) : can && !(faulted && !advises), "realloc-verdict", "reallocate %zu -> %zu bytes on platform %d %s", S.n, n, (int)a,
           thrown ? "was refused" : "was accepted");
    if (thrown) {
      ++refused;
      verify("a refused reallocation");
      return;
    }
    if (n && a != HOST) {
      auto m = moves(from);
      std::size_t keep = std::min(n, S.n);
      bool ok = m.size() == 1 && m[0].op == "COPY" && m[0].from == a && m[0].to == a && m[0].src == S.p && m[0].dst == q && m[0].n == keep && m[0].async == async;
      PCHECK(c, ok, "dispatch", "reallocate %zu -> %zu on platform %d%s ran [%s]", S.n, n, (int)a, async ? " async" : "", call_text(from).c_str());
      ++dispatched;
    } else
      PCHECK(c, moves(from).empty(), "dispatch", "reallocate to %zu bytes ran [%s]", n, call_text(from).c_str());
    Live l = live[s];
    l.p = q;
    l.n = n;
    std::size_t keep = std::min(S.n, n);
    l.data.resize(n);
    for (std::size_t i = 0; i < keep; ++i)
      PCHECK(c, (unsigned char)reach(q)[i] == l.data[i], "content", "byte %zu changed by reallocate %zu -> %zu", i, S.n, n);
    live[s] = l;
    fill(live[s]);
    verify("reallocate");
  }

  void move()
  {
    int s = tracked_live();
    if (s < 0) return;
    Live S = live[s];
    int d = (int)c.below(nodes.size());
    Node& nd = nodes[d];
    if (!nd.tracked || nd.picky || (nd.fixed && nd.fixed != S.n && S.n)) return;
    Platform a = plat(S.node), b = plat(d);
    bool same = d == S.node, can = same || has("COPY", a, b), fault = c.chance(1, 6);
    bool advises = !nd.devs.empty();
    if (fault && can && !same && !(a == HOST && b == HOST)) g_fail = 0;
    else fault = false;
    std::size_t from = g_calls.size();
    g_full = false;
    c.trace("move %zu bytes from %s to %s%s", S.n, nodes[S.node].a.getName().c_str(), nd.a.getName().c_str(), fault ? ", an operation fails" : "");
    bool thrown = false;
    char* q = nullptr;
    try {
      q = (char*)rm.move(S.p, nd.a);
    } catch (umpire::runtime_error&) {
      thrown = true;
    }
    bool faulted = fault && g_fail < 0;
    g_fail = -1;
    PCHECK(c, thrown ? (!can || faulted || g_full) : can && !(faulted && !advises), "move-verdict", "move from platform %d to %d %s", (int)a, (int)b, thrown ? "was refused" : "was accepted");
    if (thrown) {
      ++refused;
      verify("a refused move");
      return;
    }
    if (same) {
      PCHECK(c, q == S.p, "move-same", "moving to the same allocator changed the address");
      expect_calls(from, {}, "move");
    } else if (!(a == HOST && b == HOST)) {
      auto m = moves(from);
      bool ok = m.size() == 1 && m[0].op == "COPY" && m[0].from == a && m[0].to == b && m[0].src == S.p && m[0].dst == q && m[0].n == S.n;
      PCHECK(c, ok, "dispatch", "move of %zu bytes from platform %d to %d ran [%s]", S.n, (int)a, (int)b, call_text(from).c_str());
      ++dispatched;
    }
    live[s].p = q;
    live[s].node = d;
    verify("move");
  }
};

void run(Ctx& c, bool nature)
{
  machine();
  g_top = 0;
  g_calls.clear();
  g_advised.clear();
  g_fail = -1;
  W w(c, nature);
  w.make_roots();
  for (unsigned i = 0, n = 1 + (unsigned)c.below(6); i < n; ++i) w.grow_tree();
  if (nature) w.check_nature();
  c.reset_ops();
  while (c.more(60, 50)) {
    c.step();
    switch (c.weighted({12, 4, 6, 3, 5, 5, 3, 2, 1, 1})) {
      case 0: w.alloc((int)c.below(w.nodes.size()), false, c.size(c.chance(1, 8) ? 100000 : 1500)); break;
      case 1:
        if (!w.live.empty()) {
          std::size_t i = c.below(w.live.size());
          w.free_at(i, c.chance(1, 2));
        }
        break;
      case 2: w.copy(); break;
      case 3: w.set(); break;
      case 4: w.realloc(); break;
      case 5: w.move(); break;
      case 6: w.prefetch(); break;
      case 7: {
        std::size_t k = c.below(w.nodes.size());
        c.trace("release %s", w.nodes[k].a.getName().c_str());
        if (!w.nodes[k].mono) w.nodes[k].a.release();
        w.verify("release");
        break;
      }
      case 8: w.alloc((int)c.below(w.nodes.size()), true, 0); break;
      default: w.grow_tree(); break;
    }
  }
  w.verify("the history");
  while (!w.live.empty()) w.free_at(w.live.size() - 1, c.chance(1, 2));
  w.verify("everything was freed");
  if (nature ? w.nodes.size() > w.roots.size() + 1 : (w.dispatched > 2 && w.refused > 0)) c.nontrivial();
  if (w.dispatched) c.label("dispatched");
  if (w.refused) c.label("refused");
  if (w.failed) c.label("allocation-refused");
  for (auto& n : w.nodes) c.label(n.type.c_str());
}

} // namespace

int main(int argc, char** argv)
{
  Settings s;
  if (arg(argc, argv, "--suite") == std::string("nature"))
    return run_main(argc, argv, {{"nature", 1, 8, [](Ctx& c) { run(c, true); }, "at least two strategies were stacked on resources"}}, s);
  return run_main(argc, argv, {{"platforms", 1, 8, [](Ctx& c) { run(c, false); }, "more than two operations reached the device and at least one was refused"}}, s);
}
