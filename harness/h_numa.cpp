// C33: NUMA policies over a simulated machine. libnuma and the two system calls it needs are replaced by the ones
// below, which keep a node for every page, so placement can be checked on any host and can fail at will.
#include "world.hpp"

#include <map>
#include <numa.h>
#include <numaif.h>

#include "umpire/strategy/NumaPolicy.hpp"
#include "umpire/util/numa.hpp"

using namespace pbt;
using umpire::Allocator;
namespace st = umpire::strategy;

namespace {

constexpr std::uintptr_t PG = 4096;

struct Machine {
  std::vector<int> cpus;     // per node id: -1 = no such node, 0 = memory only, otherwise number of CPUs
  std::vector<bool> allowed; // may memory be placed there
  int preferred{0};
  bool usable{true};
  int fail_bind{0};  // errno to fail the next mbind with
  bool fail_cpus{false};
  bool fail_policy{false};
  bool stick{false}; // one page of the next mbind cannot be moved
  long masks{0};     // bit masks handed out and not freed
  std::map<std::uintptr_t, int> page; // page -> node; others are on the preferred node
  std::vector<std::pair<std::uintptr_t, std::uintptr_t>> bound; // ranges placed since the last reset

  int max_node() const
  {
    int m = 0;
    for (std::size_t i = 0; i < cpus.size(); ++i)
      if (cpus[i] >= 0) m = (int)i;
    return m;
  }
  int where(std::uintptr_t p) const
  {
    auto i = page.find(p);
    return i == page.end() ? preferred : i->second;
  }
} M;

bool get(const unsigned long* w, unsigned i) { return w[i / (8 * sizeof(long))] >> (i % (8 * sizeof(long))) & 1; }

} // namespace

extern "C" {
struct bitmask* numa_all_nodes_ptr;
int numa_available(void) { return M.usable ? 0 : -1; }
int numa_max_node(void) { return M.max_node(); }
int numa_preferred(void) { return M.preferred; }
struct bitmask* numa_bitmask_alloc(unsigned int n)
{
  auto* b = (struct bitmask*)::malloc(sizeof(struct bitmask));
  b->size = n;
  b->maskp = (unsigned long*)::calloc((n + 63) / 64 + 1, sizeof(long));
  ++M.masks;
  return b;
}
void numa_bitmask_free(struct bitmask* b)
{
  if (!b) return;
  ::free(b->maskp);
  ::free(b);
  --M.masks;
}
struct bitmask* numa_bitmask_clearall(struct bitmask* b)
{
  for (unsigned i = 0; i < (b->size + 63) / 64; ++i) b->maskp[i] = 0;
  return b;
}
struct bitmask* numa_bitmask_setbit(struct bitmask* b, unsigned int n)
{
  if (n < b->size) b->maskp[n / 64] |= 1UL << (n % 64);
  return b;
}
struct bitmask* numa_bitmask_clearbit(struct bitmask* b, unsigned int n)
{
  if (n < b->size) b->maskp[n / 64] &= ~(1UL << (n % 64));
  return b;
}
int numa_bitmask_isbitset(const struct bitmask* b, unsigned int n) { return n < b->size && get(b->maskp, n); }
unsigned int numa_bitmask_weight(const struct bitmask* b)
{
  unsigned w = 0;
  for (unsigned i = 0; i < b->size; ++i) w += get(b->maskp, i);
  return w;
}
struct bitmask* numa_allocate_cpumask(void) { return numa_bitmask_alloc(256); }
struct bitmask* numa_allocate_nodemask(void) { return numa_bitmask_alloc((unsigned)M.cpus.size()); }
struct bitmask* numa_get_mems_allowed(void)
{
  auto* b = numa_bitmask_alloc(64);
  for (std::size_t i = 0; i < M.cpus.size(); ++i)
    if (M.cpus[i] >= 0 && M.allowed[i]) numa_bitmask_setbit(b, (unsigned)i);
  return b;
}
int numa_node_to_cpus(int node, struct bitmask* b)
{
  if (M.fail_cpus) {
    errno = ENOENT;
    return -1;
  }
  numa_bitmask_clearall(b);
  int before = 0;
  for (int i = 0; i < node; ++i) before += std::max(M.cpus[i], 0);
  for (int i = 0; i < M.cpus[node]; ++i) numa_bitmask_setbit(b, (unsigned)(before + i));
  return 0;
}
long mbind(void* addr, unsigned long len, int mode, const unsigned long* mask, unsigned long maxnode, unsigned flags)
{
  std::uintptr_t a = (std::uintptr_t)addr;
  if (M.fail_bind) {
    errno = M.fail_bind;
    return -1;
  }
  if (a % PG) {
    errno = EINVAL;
    return -1;
  }
  int node = -1;
  for (unsigned long i = 0; mask && i + 1 < maxnode; ++i) { // the kernel ignores the last bit it is told about
    if (!get(mask, (unsigned)i)) continue;
    if (i >= M.cpus.size() || M.cpus[i] < 0 || !M.allowed[i]) {
      errno = EINVAL;
      return -1;
    }
    if (node < 0) node = (int)i; // of several nodes the kernel may choose any
  }
  if (node < 0) {
    errno = EINVAL;
    return -1;
  }
  std::uintptr_t end = (a + len + PG - 1) / PG * PG;
  M.bound.push_back({a, end});
  if (!(flags & (MPOL_MF_MOVE | MPOL_MF_MOVE_ALL)) && (flags & MPOL_MF_STRICT)) {
    for (std::uintptr_t p = a; p < end; p += PG)
      if (M.where(p) != node) {
        errno = EIO;
        return -1;
      }
  }
  bool stuck = false;
  if (flags & (MPOL_MF_MOVE | MPOL_MF_MOVE_ALL))
    for (std::uintptr_t p = a; p < end; p += PG) {
      if (M.stick && p + PG >= end && M.where(p) != node) {
        stuck = true;
        continue;
      }
      M.page[p] = node;
    }
  if (stuck && (flags & MPOL_MF_STRICT)) {
    errno = EIO;
    return -1;
  }
  return 0;
}
long get_mempolicy(int* mode, unsigned long*, unsigned long, void* addr, unsigned flags)
{
  if (M.fail_policy) {
    errno = EFAULT;
    return -1;
  }
  if ((flags & MPOL_F_NODE) && (flags & MPOL_F_ADDR))
    *mode = M.where((std::uintptr_t)addr / PG * PG);
  else if (flags & MPOL_F_NODE)
    *mode = 0;
  else
    *mode = MPOL_DEFAULT;
  return 0;
}
}

namespace {

enum Kind { HOST, NUMA, NAMED, LIMIT, SAFE, ALIGNED, QUICK, DYNAMIC };
const char* kind_name[] = {"HOST", "NumaPolicy", "Named", "SizeLimiter", "ThreadSafe", "Aligned", "QuickPool", "DynamicPoolList"};

struct Node {
  Allocator a;
  Kind kind;
  int parent{-1};
  int node{-1};         // NUMA
  bool page_aligned{};  // everything it hands out starts at a page
  int home{-1};         // node on which all its memory must lie, -1 = not determined
  int numa_above{0};    // some ancestor is a policy that can only fail
  bool dead{};          // a policy for a node that does not exist is somewhere on the way
  std::size_t limit{};
};

struct Live {
  void* p;
  std::size_t size;
  int owner;
  int home;
  unsigned char fill;
};

struct Sim {
  Ctx& c;
  umpire::ResourceManager& rm{umpire::ResourceManager::getInstance()};
  std::vector<Node> nodes;
  std::vector<Live> live;
  unsigned serial{0};
  unsigned placed{0}, moved{0}, failed{0};
  explicit Sim(Ctx& x) : c(x) {}

  void machine()
  {
    M = Machine{};
    int n = 1 + (int)c.below(5);
    int holes = c.chance(1, 3);
    for (int i = 0; i < n; ++i) {
      if (holes && c.chance(1, 4)) {
        M.cpus.push_back(-1);
        M.allowed.push_back(false);
      }
      M.cpus.push_back(i && c.chance(1, 3) ? 0 : 1 + (int)c.below(8));
      M.allowed.push_back(i == 0 || !c.chance(1, 8));
    }
    M.preferred = M.cpus[0] < 0 ? 1 : 0;
    numa_all_nodes_ptr = numa_bitmask_alloc((unsigned)M.cpus.size() + (unsigned)c.below(70));
    for (std::size_t i = 0; i < M.cpus.size(); ++i)
      if (M.cpus[i] >= 0) numa_bitmask_setbit(numa_all_nodes_ptr, (unsigned)i);
    M.masks = 0;
  }

  bool exists(int n) const { return n >= 0 && n < (int)M.cpus.size() && M.cpus[n] >= 0 && M.allowed[n]; }

  std::vector<int> chain(int i) const
  {
    std::vector<int> r;
    for (; i >= 0; i = nodes[i].parent) r.push_back(i);
    return r;
  }

  struct Shot {
    std::size_t cur, count, hwm, actual;
  };
  std::vector<Shot> shots()
  {
    std::vector<Shot> r;
    for (auto& n : nodes) r.push_back({n.a.getCurrentSize(), n.a.getAllocationCount(), n.a.getHighWatermark(), n.a.getActualSize()});
    return r;
  }
  // a refused operation: every number as before, save what pools hold: they may have given blocks back or keep one for
  // memory that a policy above them could not place
  void unchanged(const std::vector<Shot>& b, const char* what)
  {
    for (std::size_t i = 0; i < b.size(); ++i) {
      auto& n = nodes[i];
      bool below_pool = false;
      for (std::size_t k = 0; k < nodes.size(); ++k)
        if (nodes[k].kind == QUICK || nodes[k].kind == DYNAMIC) {
          auto ch = chain((int)k);
          for (std::size_t x = 1; x < ch.size(); ++x) below_pool |= ch[x] == (int)i;
        }
      if (below_pool) continue;
      std::size_t cur = n.a.getCurrentSize(), cnt = n.a.getAllocationCount();
      PCHECK(c, cur == b[i].cur && cnt == b[i].count, "refused-changes",
             "%s was refused, but \"%s\" (%s) now has %zu bytes in %zu allocations instead of %zu in %zu", what, n.a.getName().c_str(),
             kind_name[n.kind], cur, cnt, b[i].cur, b[i].count);
    }
  }

  void fill(Live& l) { memset(l.p, l.fill, l.size); }

  void on_node(const Live& l, const char* what)
  {
    if (l.home < 0 || l.size == 0) return;
    std::uintptr_t a = (std::uintptr_t)l.p / PG * PG, e = (std::uintptr_t)l.p + l.size;
    for (std::uintptr_t p = a; p < e; p += PG)
      PCHECK(c, M.where(p) == l.home, "placement", "%s: page %zu of an allocation of %zu bytes from \"%s\" is on node %d instead of %d", what,
             (std::size_t)((p - a) / PG), l.size, nodes[l.owner].a.getName().c_str(), M.where(p), l.home);
  }

  void check(const char* what)
  {
    PCHECK(c, M.masks == 0, "mask-leak", "%s: %ld node masks were not freed", what, M.masks);
    for (auto& l : live) {
      auto* q = (unsigned char*)l.p;
      for (std::size_t i = 0; i < l.size; i += (l.size > 600 ? 61 : 1))
        PCHECK(c, q[i] == l.fill, "contents", "%s: byte %zu of a live allocation of %zu bytes from \"%s\" changed", what, i, l.size,
               nodes[l.owner].a.getName().c_str());
      PCHECK(c, rm.hasAllocator(l.p) && rm.getAllocator(l.p).getId() == nodes[l.owner].a.getId() && rm.getSize(l.p) == l.size, "record",
             "%s: a live allocation of %zu bytes from \"%s\" is not recorded as such", what, l.size, nodes[l.owner].a.getName().c_str());
      on_node(l, what);
    }
    for (std::size_t i = 0; i < nodes.size(); ++i) {
      std::size_t cur = 0, cnt = 0;
      bool pool = false;
      for (auto& l : live) {
        auto ch = chain(l.owner);
        for (std::size_t k = 0; k < ch.size(); ++k) {
          if (ch[k] == (int)i) {
            cur += l.size;
            cnt += k == 0 || l.size; // a zero-byte allocation does not reach the parents
          }
          if (nodes[ch[k]].kind == QUICK || nodes[ch[k]].kind == DYNAMIC || nodes[ch[k]].kind == ALIGNED) break;
        }
      }
      for (std::size_t k = 0; k < nodes.size(); ++k)
        if (nodes[k].kind == QUICK || nodes[k].kind == DYNAMIC || nodes[k].kind == ALIGNED) {
          auto ch = chain((int)k);
          for (std::size_t x = 1; x < ch.size(); ++x) pool |= ch[x] == (int)i;
        }
      if (pool) continue;
      PCHECK(c, nodes[i].a.getCurrentSize() == cur && nodes[i].a.getAllocationCount() == cnt, "statistics",
             "%s: \"%s\" (%s) reports %zu bytes in %zu allocations instead of %zu in %zu", what, nodes[i].a.getName().c_str(),
             kind_name[nodes[i].kind], nodes[i].a.getCurrentSize(), nodes[i].a.getAllocationCount(), cur, cnt);
      PCHECK(c, nodes[i].a.getPlatform() == umpire::Platform::host, "platform", "%s: \"%s\" is not a host allocator any more", what,
             nodes[i].a.getName().c_str());
    }
  }

  // only the pages of [p, p+size) were placed anywhere
  void confined(void* p, std::size_t size, const char* what)
  {
    std::uintptr_t a = (std::uintptr_t)p / PG * PG, e = ((std::uintptr_t)p + size + PG - 1) / PG * PG;
    for (auto& b : M.bound)
      PCHECK(c, b.first >= a && b.second <= e, "foreign-pages", "%s: pages %zd to %zd relative to an allocation of %zu bytes were moved", what,
             (ssize_t)(b.first - a) / (ssize_t)PG, (ssize_t)(b.second - a) / (ssize_t)PG, size);
  }

  void make()
  {
    int parent = (int)c.below(nodes.size());
    Node& pn = nodes[parent];
    std::string nm = "n" + std::to_string(serial++);
    Node n{pn.a, HOST};
    n.parent = parent;
    n.page_aligned = pn.page_aligned;
    n.home = pn.home;
    n.dead = pn.dead;
    Allocator pa = pn.a;
    static const Kind kinds[] = {NUMA, NUMA, NUMA, NUMA, NAMED, SAFE, LIMIT, ALIGNED, QUICK, DYNAMIC};
    n.kind = kinds[c.below(10)];
    if (nodes.size() == 1 && n.kind == DYNAMIC) n.kind = NUMA;
    switch (n.kind) {
      case NUMA: {
        n.node = (int)c.below(M.cpus.size());
        if (c.chance(1, 10)) n.node = (int)c.below(80) - 4;
        c.trace("%s = NumaPolicy(%s, node %d)", nm.c_str(), pa.getName().c_str(), n.node);
        try {
          n.a = rm.makeAllocator<st::NumaPolicy>(nm, pa, n.node);
        } catch (const umpire::runtime_error&) {
          PCHECK(c, n.node < 0, "policy-refused", "a policy for node %d was refused", n.node);
          PCHECK(c, !rm.isAllocator(nm), "refused-name", "a refused policy left its name behind");
          c.label("negative node");
          return;
        }
        PCHECK(c, n.node >= 0, "negative-node", "a policy for node %d was made", n.node);
        PCHECK(c, dynamic_cast<st::NumaPolicy*>(n.a.getAllocationStrategy())->getNode() == n.node, "node", "getNode() is not %d", n.node);
        n.home = n.node;
        n.dead |= !exists(n.node);
        taint(parent); // it places pages of the pools below, which they later hand out to others
        break;
      }
      case NAMED: n.a = rm.makeAllocator<st::NamedAllocationStrategy>(nm, pa); break;
      case SAFE: n.a = rm.makeAllocator<st::ThreadSafeAllocator>(nm, pa); break;
      case LIMIT:
        n.limit = c.size(200000);
        n.a = rm.makeAllocator<st::SizeLimiter>(nm, pa, n.limit);
        break;
      case ALIGNED:
        n.page_aligned = c.chance(3, 4);
        n.a = rm.makeAllocator<st::AlignedAllocator>(nm, pa, (std::size_t)(n.page_aligned ? PG : 64));
        break;
      case QUICK: {
        std::size_t al = c.chance(3, 4) ? PG : 16;
        n.a = rm.makeAllocator<st::QuickPool>(nm, pa, (1 + c.below(20)) * PG, (1 + c.below(4)) * PG, al);
        n.page_aligned = al == PG;
        break;
      }
      default: {
        std::size_t al = c.chance(3, 4) ? PG : 16;
        n.a = rm.makeAllocator<st::DynamicPoolList>(nm, pa, (1 + c.below(20)) * PG, (1 + c.below(4)) * PG, al);
        n.page_aligned = al == PG;
        break;
      }
    }
    if (n.kind != NUMA) c.trace("%s = %s(%s)", nm.c_str(), kind_name[n.kind], pa.getName().c_str());
    // a policy above memory that does not start at a page can serve nothing
    if (n.kind == NUMA && !pn.page_aligned) n.dead = true;
    nodes.push_back(n);
  }

  bool limited(int i) const
  {
    for (int k : chain(i))
      if (nodes[k].kind == LIMIT) return true;
    return false;
  }
  // must an allocation from it succeed?
  bool sure(int i) const
  {
    if (limited(i) || nodes[i].dead) return false;
    for (int k : chain(i)) {
      if (nodes[k].kind == NUMA && (!exists(nodes[k].node) || !nodes[nodes[k].parent].page_aligned)) return false;
    }
    return true;
  }
  int policies(int i) const
  {
    int r = 0;
    for (int k : chain(i)) r += nodes[k].kind == NUMA;
    return r;
  }

  void add(void* p, std::size_t size, int owner)
  {
    Live l{p, size, owner, nodes[owner].home, (unsigned char)(1 + c.below(250))};
    // below the nearest policy nothing else decides where the memory is
    if (size == 0) l.home = -1;
    fill(l);
    live.push_back(l);
  }

  void faults()
  {
    M.fail_bind = 0;
    M.stick = false;
    M.usable = true;
    M.bound.clear();
    switch (c.weighted({12, 2, 1, 1})) {
      case 1: M.fail_bind = c.chance(1, 2) ? ENOMEM : EIO; break;
      case 2: M.stick = true; break;
      case 3: M.usable = false; break;
      default: break;
    }
  }
  bool healthy() const { return !M.fail_bind && !M.stick && M.usable; }

  void allocate()
  {
    int i = (int)c.below(nodes.size());
    std::size_t size = c.chance(1, 20) ? 0 : c.chance(1, 2) ? (1 + c.below(12)) * PG - c.below(3) : c.size(40000);
    faults();
    auto before = shots();
    c.trace("allocate %zu from %s%s%s%s", size, nodes[i].a.getName().c_str(), M.fail_bind ? " (mbind fails)" : "", M.stick ? " (a page sticks)" : "",
            M.usable ? "" : " (NUMA unusable)");
    bool must = healthy() && sure(i);
    void* p = nullptr;
    try {
      p = nodes[i].a.allocate(size);
    } catch (const umpire::runtime_error&) {
      PCHECK(c, !must && size, "refused", "allocating %zu bytes from \"%s\" (%s) was refused", size, nodes[i].a.getName().c_str(), kind_name[nodes[i].kind]);
      unchanged(before, "an allocation");
      ++failed;
      c.label("refused allocation");
      return;
    } catch (const std::bad_alloc&) {
      c.fail("wrong-error", "allocating %zu bytes from \"%s\" threw std::bad_alloc", size, nodes[i].a.getName().c_str());
    }
    if (nodes[i].kind == NUMA && size) {
      if (policies(i) == 1) confined(p, size, "allocate"); // a policy further down places the pool's whole block
      PCHECK(c, healthy() || M.stick, "fault-hidden", "allocating from \"%s\" succeeded although the memory could not be placed", nodes[i].a.getName().c_str());
      PCHECK(c, exists(nodes[i].node), "bad-node", "an allocation from a policy for node %d, which cannot be used, succeeded", nodes[i].node);
      ++placed;
      if (size > PG) c.label("several pages placed");
    }
    add(p, size, i);
    if (nodes[i].home >= 0 && nodes[i].kind != NUMA) c.label("allocator above a policy");
    if (policies(i) > 1) c.label("stacked policies");
  }

  void deallocate()
  {
    if (live.empty()) return;
    std::size_t k = c.below(live.size());
    c.trace("deallocate %zu bytes of %s", live[k].size, nodes[live[k].owner].a.getName().c_str());
    M.fail_bind = 0;
    M.stick = false;
    M.usable = true;
    void* p = live[k].p;
    if (c.chance(1, 3))
      rm.deallocate(p);
    else
      nodes[live[k].owner].a.deallocate(p);
    live.erase(live.begin() + (long)k);
    PCHECK(c, !rm.hasAllocator(p) || [&] { for (auto& l : live) if (l.p <= p && (char*)p < (char*)l.p + l.size) return true; return false; }(), "still-known",
           "a freed allocation is still recorded");
  }

  void move()
  {
    if (live.empty()) return;
    std::size_t k = c.below(live.size());
    Live& l = live[k];
    int t = (int)c.below(nodes.size());
    std::size_t off = l.size > PG && c.chance(1, 6) ? c.chance(1, 2) ? PG : 1 + c.below(l.size - 1) : 0;
    faults();
    auto before = shots();
    c.trace("move %zu bytes of %s (+%zu) to %s%s%s%s", l.size, nodes[l.owner].a.getName().c_str(), off, nodes[t].a.getName().c_str(),
            M.fail_bind ? " (mbind fails)" : "", M.stick ? " (a page sticks)" : "", M.usable ? "" : " (NUMA unusable)");
    bool numa = nodes[t].kind == NUMA;
    bool same = t == l.owner;
    bool must = same || (off == 0 && healthy() && (numa ? (!l.size || (exists(nodes[t].node) && (std::uintptr_t)l.p % PG == 0)) : sure(t)));
    void* q = nullptr;
    auto old = M.page;
    try {
      q = rm.move((char*)l.p + off, nodes[t].a);
    } catch (const umpire::runtime_error&) {
      PCHECK(c, !must, "move-refused", "moving %zu bytes from \"%s\" to \"%s\" was refused", l.size, nodes[l.owner].a.getName().c_str(),
             nodes[t].a.getName().c_str());
      unchanged(before, "a move");
      ++failed;
      if (numa && M.stick) l.home = -1; // some pages may have moved before the failure
      if (numa && M.stick && l.size > PG) taint(l.owner);
      if (off) confined_to_none("move of an offset pointer");
      c.label("refused move");
      return;
    }
    if (same) {
      PCHECK(c, q == (char*)l.p + off, "move-same", "moving an allocation to its own allocator returned another pointer");
      PCHECK(c, M.bound.empty(), "move-same-placed", "moving an allocation to its own allocator placed memory");
      return;
    }
    PCHECK(c, off == 0, "move-offset", "moving a pointer %zu bytes into an allocation succeeded", off);
    if (numa) {
      PCHECK(c, q == l.p, "moved-away", "a move to a NUMA policy returned another pointer");
      confined(l.p, l.size, "move");
      PCHECK(c, l.size == 0 || healthy() || M.stick, "fault-hidden", "a move to a NUMA policy succeeded although the memory could not be placed");
      PCHECK(c, l.size == 0 || exists(nodes[t].node), "bad-node", "a move to node %d, which cannot be used, succeeded", nodes[t].node);
      // pages are shared by what a pool above or below has served from them
      if (l.size) {
        taint(l.owner);
        l.home = nodes[t].node;
        ++moved;
        c.label(l.size > PG ? "several pages moved" : "one page moved");
      }
      auto after = shots();
      for (std::size_t i = 0; i < nodes.size(); ++i)
        PCHECK(c, after[i].cur == before[i].cur && after[i].count == before[i].count && after[i].hwm == before[i].hwm, "move-statistics",
               "a move in place changed the numbers of \"%s\"", nodes[i].a.getName().c_str());
    } else {
      std::size_t size = l.size;
      unsigned char f = l.fill;
      PCHECK(c, q != nullptr, "null", "move returned null");
      live.erase(live.begin() + (long)k);
      auto* b = (unsigned char*)q;
      for (std::size_t i = 0; i < size; ++i) PCHECK(c, b[i] == f, "move-contents", "byte %zu of %zu differs after a move", i, size);
      add(q, size, t);
      c.label("moved by copy");
    }
  }
  void confined_to_none(const char* what) { PCHECK(c, M.bound.empty(), "foreign-pages", "%s: memory was placed although it was refused", what); }
  // memory of a pool has been moved: what it serves later may lie anywhere
  void taint(int owner)
  {
    // pieces of pools keep the placement of their block: forget it for every pool on the way and what stands on it
    for (int k : chain(owner)) {
      if (nodes[k].kind != QUICK && nodes[k].kind != DYNAMIC) continue;
      for (std::size_t i = 0; i < nodes.size(); ++i) {
        auto ch = chain((int)i);
        for (int x : ch) {
          if (x == k) {
            nodes[i].home = -1;
            break;
          }
          if (nodes[x].kind == NUMA) break; // a policy above the pool places what it hands out itself
        }
      }
      for (auto& l : live) {
        auto ch = chain(l.owner);
        for (int x : ch) {
          if (x == k) {
            l.home = -1;
            break;
          }
          if (nodes[x].kind == NUMA) break;
        }
      }
    }
  }

  void reallocate()
  {
    if (live.empty()) return;
    std::size_t k = c.below(live.size());
    Live l = live[k];
    std::size_t size = c.chance(1, 2) ? (1 + c.below(12)) * PG - c.below(3) : c.size(40000);
    faults();
    auto before = shots();
    c.trace("reallocate %zu bytes of %s to %zu%s%s%s", l.size, nodes[l.owner].a.getName().c_str(), size, M.fail_bind ? " (mbind fails)" : "",
            M.stick ? " (a page sticks)" : "", M.usable ? "" : " (NUMA unusable)");
    bool must = healthy() && sure(l.owner);
    void* q = nullptr;
    try {
      q = rm.reallocate(l.p, size);
    } catch (const umpire::runtime_error&) {
      PCHECK(c, !must, "realloc-refused", "reallocating %zu to %zu bytes from \"%s\" was refused", l.size, size, nodes[l.owner].a.getName().c_str());
      unchanged(before, "a reallocation");
      ++failed;
      c.label("refused reallocation");
      return;
    }
    auto* b = (unsigned char*)q;
    for (std::size_t i = 0; i < std::min(size, l.size); ++i)
      PCHECK(c, b[i] == l.fill, "realloc-contents", "byte %zu differs after reallocating %zu to %zu bytes", i, l.size, size);
    live.erase(live.begin() + (long)k);
    add(q, size, l.owner);
    if (nodes[l.owner].home >= 0) c.label("reallocated on a node");
  }

  void queries()
  {
    M.fail_bind = 0;
    M.stick = false;
    M.usable = !c.chance(1, 6);
    M.fail_cpus = c.chance(1, 8);
    M.fail_policy = c.chance(1, 8);
    auto nodes_of = [&](int what) {
      std::vector<int> r;
      for (std::size_t i = 0; i < M.cpus.size(); ++i)
        if (M.cpus[i] >= 0 && (what == 0 ? M.cpus[i] > 0 : what == 1 ? M.cpus[i] == 0 : (bool)M.allowed[i])) r.push_back((int)i);
      return r;
    };
    int which = (int)c.below(5);
    c.trace("query %d%s%s%s", which, M.usable ? "" : " (NUMA unusable)", M.fail_cpus ? " (CPU lists fail)" : "", M.fail_policy ? " (get_mempolicy fails)" : "");
    bool threw = false;
    static const char* names[] = {"get_host_nodes", "get_device_nodes", "get_allocatable_nodes", "preferred_node", "get_location"};
    try {
      if (which < 3) {
        std::vector<int> got = which == 0 ? umpire::numa::get_host_nodes() : which == 1 ? umpire::numa::get_device_nodes() : umpire::numa::get_allocatable_nodes();
        PCHECK(c, M.usable && (which == 2 || !M.fail_cpus), "query-fault", "%s gave an answer although the system did not", names[which]);
        PCHECK(c, got == nodes_of(which), "query-nodes", "%s returned %zu nodes, the system has %zu such", names[which], got.size(), nodes_of(which).size());
      } else if (which == 3) {
        int got = umpire::numa::preferred_node();
        PCHECK(c, M.usable, "query-fault", "preferred_node gave an answer although NUMA is unusable");
        PCHECK(c, got == M.preferred, "query-preferred", "preferred_node is %d instead of %d", got, M.preferred);
      } else if (!live.empty()) {
        auto& l = live[c.below(live.size())];
        char* p = (char*)l.p + (l.size ? c.below(l.size) : 0);
        int got = umpire::numa::get_location(p);
        PCHECK(c, !M.fail_policy, "query-fault", "get_location gave an answer although the system did not");
        PCHECK(c, got == M.where((std::uintptr_t)p / PG * PG), "query-location", "get_location is %d instead of %d", got, M.where((std::uintptr_t)p / PG * PG));
      }
    } catch (const umpire::runtime_error&) {
      threw = true;
    }
    if (threw) {
      bool may = which == 4 ? M.fail_policy : !M.usable || (which < 2 && M.fail_cpus);
      PCHECK(c, may, "query-refused", "%s failed although the system answered", names[which]);
      c.label("failed query");
    }
    M.fail_cpus = M.fail_policy = false;
    M.usable = true;
  }

  void run()
  {
    machine();
    Node h{rm.getAllocator("HOST"), HOST};
    h.page_aligned = true;
    nodes.push_back(h);
    PCHECK(c, umpire::get_page_size() == sysconf(_SC_PAGESIZE), "page-size", "get_page_size() is %ld", umpire::get_page_size());
    for (unsigned k = 1 + (unsigned)c.below(4); k; --k) make();
    while (c.more(60)) {
      c.step();
      const char* what = "?";
      switch (c.weighted({10, 6, 7, 4, 2, 2})) {
        case 0: what = "allocate"; allocate(); break;
        case 1: what = "deallocate"; deallocate(); break;
        case 2: what = "move"; move(); break;
        case 3: what = "reallocate"; reallocate(); break;
        case 4: what = "query"; queries(); break;
        default:
          if (nodes.size() < 9) make();
          what = "make";
          break;
      }
      M.fail_bind = 0;
      M.stick = false;
      M.usable = true;
      check(what);
    }
    while (!live.empty()) {
      nodes[live.back().owner].a.deallocate(live.back().p);
      live.pop_back();
    }
    for (std::size_t i = nodes.size(); i-- > 0;) nodes[i].a.release();
    check("the end");
    for (auto& n : nodes)
      PCHECK(c, n.a.getCurrentSize() == 0 && n.a.getAllocationCount() == 0, "left-over", "\"%s\" (%s) still has %zu bytes in %zu allocations", n.a.getName().c_str(),
             kind_name[n.kind], n.a.getCurrentSize(), n.a.getAllocationCount());
    if (placed + moved >= 2 && (failed || moved)) c.nontrivial();
  }
};

void numa_case(Ctx& c)
{
  setenv("UMPIRE_LOG_LEVEL", "Error", 1);
  Sim s(c);
  s.run();
}

} // namespace

int main(int argc, char** argv)
{
  std::vector<Stream> s{{"numa", 1, 1, numa_case,
                         "memory was placed on nodes at least twice and something was moved in place or refused"}};
  Settings st;
  st.default_quick = 8000;
  st.default_thorough = 150000;
  return run_main(argc, argv, s, st);
}
