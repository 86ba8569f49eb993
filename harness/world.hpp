// A generated world of umpire allocators with a reference model beside it.
//
// Every strategy under test sits on a Spy: an AllocationStrategy of our own, made through the public
// makeAllocator(), that records each block its client takes from and returns to the parent, and can be told to
// run out of memory. The leaf Spy is the bottom "memory resource" (malloc with sanitizer red zones around every
// block). The model follows only what crosses the public interfaces: what the user asked for and was given, and
// what each strategy asked of its parent.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP

#include "pbt.hpp"

#include <algorithm>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>

#include <sys/mman.h>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/AllocationStrategy.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"
#include "umpire/util/wrap_allocator.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define VERIF_ASAN 1
#endif
#endif

namespace world {
#define WCHECK(w, group, cond, kind, ...)              \
  do {                                                 \
    if (!(cond)) (w).violated(group, kind, __VA_ARGS__); \
  } while (0)


using pbt::Ctx;
using Addr = std::uintptr_t;
using umpire::Allocator;
using umpire::strategy::AllocationStrategy;

inline std::size_t round_up(std::size_t n, std::size_t a) { return n % a ? n + (a - n % a) : n; }

// Sum of bytes and number of blocks an allocator has handed out, as its clients see it.
struct Meter {
  std::size_t bytes{0}, count{0}, max_bytes{0}, ever{0};
  std::size_t align{1}, aligned{0}, max_aligned{0}; // the same, each block rounded up to `align`
  void add(std::size_t n)
  {
    bytes += n;
    ever += n;
    ++count;
    if (bytes > max_bytes) max_bytes = bytes;
    aligned += round_up(n, align);
    if (aligned > max_aligned) max_aligned = aligned;
  }
  void sub(std::size_t n)
  {
    bytes -= n;
    --count;
    aligned -= round_up(n, align);
  }
};

struct SpyBlock {
  std::size_t size;
  std::uint64_t serial;
};

class Spy : public AllocationStrategy {
 public:
  // interposer
  Spy(const std::string& name, int id, Allocator parent)
      : AllocationStrategy{name, id, parent.getAllocationStrategy(), "Spy"}, m_up{parent.getAllocationStrategy()}
  {
  }
  // leaf: blocks start `skew` bytes after a 1024-byte boundary
  Spy(const std::string& name, int id, int skew)
      : AllocationStrategy{name, id, nullptr, "Spy"}, m_up{nullptr}, m_skew(static_cast<std::size_t>(skew))
  {
  }

  void* allocate(std::size_t bytes) override
  {
    ++calls_alloc;
    last_request = bytes;
    if (fail_next) {
      if (grace)
        --grace;
      else {
        --fail_next;
        deny(bytes);
      }
    }
    if (bytes > budget || outstanding > budget - bytes) deny(bytes);
    void* p = nullptr;
    if (m_up) {
      p = m_up->allocate_internal(bytes);
    } else {
      if (bytes > (vast ? std::size_t{1} << 42 : std::size_t{1} << 28)) deny(bytes);
      void* raw = nullptr;
      if (vast && !arena && bytes > (std::size_t{1} << 20)) { // address space only; the pages in use are few
        std::size_t n = vast_room(bytes);
        raw = mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (raw == MAP_FAILED) deny(bytes);
        raw = static_cast<char*>(raw) + 4096;
        mprotect(raw, n - 8192, PROT_READ | PROT_WRITE);
      } else
      if (arena) { // twins see the same addresses, up to a shift
        std::size_t n = (m_skew + bytes + 1023) / 1024 * 1024 + 1024;
        if (n > arena_room) deny(bytes);
        raw = arena;
        arena += n;
        arena_room -= n;
      } else if (posix_memalign(&raw, 1024, m_skew + bytes))
        deny(bytes);
#ifdef VERIF_ASAN
      if (m_skew && !arena && !(vast && bytes > (std::size_t{1} << 20))) __asan_poison_memory_region(raw, m_skew);
#endif
      p = static_cast<char*>(raw) + m_skew;
    }
    if (!p && error.empty()) error = "parent of " + getName() + " returned a null block for " + std::to_string(bytes) + " bytes";
    live[reinterpret_cast<Addr>(p)] = SpyBlock{bytes, ++serial};
    journal.push_back({true, serial, bytes});
    outstanding += bytes;
    if (outstanding > max_outstanding) max_outstanding = outstanding;
    if (meter) meter->add(meter_fixed ? meter_fixed : bytes);
    return p;
  }

  void deallocate(void* p, std::size_t size) override
  {
    ++calls_dealloc;
    auto it = live.find(reinterpret_cast<Addr>(p));
    if (it == live.end()) {
      if (error.empty()) {
        char b[160];
        snprintf(b, sizeof b, "%p (size %zu) was returned to %s, which has no such block outstanding", p, size,
                 getName().c_str());
        error = b;
      }
      return;
    }
    if (size != it->second.size && error.empty()) {
      char b[200];
      snprintf(b, sizeof b, "%p was obtained from %s with size %zu and returned with size %zu", p, getName().c_str(),
               it->second.size, size);
      error = b;
    }
    std::size_t n = it->second.size;
    if (busy && error.empty()) {
      std::string w = busy(reinterpret_cast<Addr>(p), n);
      if (!w.empty()) error = w;
    }
    journal.push_back({false, it->second.serial, n});
    live.erase(it);
    outstanding -= n;
    if (meter) meter->sub(meter_fixed ? meter_fixed : n);
    if (m_up) {
      m_up->deallocate_internal(p, n);
    } else if (vast && !arena && n > (std::size_t{1} << 20)) {
      munmap(static_cast<char*>(p) - m_skew - 4096, vast_room(n));
    } else if (arena) {
#ifdef VERIF_ASAN
      if (!vast || n < (std::size_t{1} << 20)) __asan_unpoison_memory_region(p, n);
#endif
    } else {
      char* raw = static_cast<char*>(p) - m_skew;
#ifdef VERIF_ASAN
      if (m_skew) __asan_unpoison_memory_region(raw, m_skew);
      __asan_unpoison_memory_region(p, n);
#endif
      free(raw);
    }
  }

  umpire::Platform getPlatform() noexcept override { return m_up ? m_up->getPlatform() : umpire::Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override
  {
    if (m_up) return m_up->getTraits();
    umpire::MemoryResourceTraits t;
    t.resource = umpire::MemoryResourceTraits::resource_type::host;
    return t;
  }

  struct Event {
    bool add;
    std::uint64_t serial;
    std::size_t size;
  };
  std::map<Addr, SpyBlock> live;
  std::vector<Event> journal; // since the model last looked
  std::size_t outstanding{0}, max_outstanding{0};
  std::size_t budget{std::numeric_limits<std::size_t>::max()};
  unsigned fail_next{0}, grace{0}; // after `grace` more requests, `fail_next` fail
  std::size_t last_request{0};
  bool vast{false}; // leaf: serve very large blocks
  char* arena{nullptr};
  std::size_t arena_room{0};
  std::size_t calls_alloc{0}, calls_dealloc{0}, denied{0};
  std::uint64_t serial{0};
  std::string error;
  Meter* meter{nullptr}; // of the parent node
  std::size_t meter_fixed{0};
  std::function<std::string(Addr, std::size_t)> busy; // is user data still inside this block?

 private:
  [[noreturn]] void deny(std::size_t bytes)
  {
    ++denied;
    throw umpire::out_of_memory_error{"spy: no memory for " + std::to_string(bytes), __FILE__, __LINE__};
  }
  std::size_t vast_room(std::size_t n) const { return (m_skew + n + 4095) / 4096 * 4096 + 8192; }
  AllocationStrategy* m_up;
  std::size_t m_skew{0};
};

inline std::string to_string(Spy&) { return "Spy"; }

enum Kind { K_HOST, K_SPY, K_QUICK, K_LIST, K_FIXED, K_MIXED, K_MONO, K_SLOT, K_LIMIT, K_TSAFE, K_ALIGN, K_NAMED, K_SHIM };
inline const char* kind_name(Kind k)
{
  static const char* n[] = {"HOST", "Spy", "QuickPool", "DynamicPoolList", "FixedPool", "MixedPool", "Monotonic",
                            "SlotPool", "SizeLimiter", "ThreadSafe", "Aligned", "Named", "NamingShim"};
  return n[k];
}
inline bool is_pool(Kind k) { return k == K_QUICK || k == K_LIST; }

enum Heur { H_DEFAULT, H_PCT, H_PCT_HWM, H_BLK, H_BLK_HWM };

struct UserAlloc {
  Addr p;
  std::size_t n;
  int node;
  std::uint32_t seed;
  std::string name;
};

struct PoolBlock {
  Addr base;      // as the parent returned it
  std::uint64_t serial;
  Addr start;     // first usable address
  std::size_t size;
};

struct Node {
  Kind kind;
  int id{-1};
  int parent{-1};
  Allocator al;
  std::string name;
  Spy* below{nullptr}; // between this strategy and its parent (or the leaf itself)
  bool tracked{true};
  Meter meter;
  std::set<Addr> live; // user allocations (not zero-byte ones)
  std::size_t zero{0};
  std::vector<int> children;
  // parameters
  std::size_t first{0}, next{0}, align{16}, obj{0}, per_pool{0}, capacity{0}, slots{0}, limit{0};
  std::size_t base_align{1};
  std::size_t mx_small{0}, mx_large{0}, mx_max{0}, mx_mult{0};
  Heur heur{H_DEFAULT};
  std::size_t heur_n{100};
  std::size_t fixed_req{0}; // requests have to be of this size
  // pool model
  std::vector<PoolBlock> blocks;
  std::size_t actual_max{0}, aligned_max{0};
  bool coalesced{false};
  std::size_t last_actual{0};
  std::size_t actual_block{0}; // FixedPool: what one block adds to the actual size
};

// Which guarantee a check belongs to. A suite decides the groups of its own property; when a check of another
// group fails the case is abandoned, because the model no longer describes the state (unless only a report was wrong).
enum Group : unsigned {
  G_PLACE = 1, G_CONTENT = 2, G_ALIGN = 4, G_STATS = 8, G_POOL = 16, G_PARENT = 32, G_SERVE = 64, G_FAULT = 128,
  G_HUGE = 256, G_LIMIT = 512, G_CAP = 1024, G_LOOKUP = 2048, G_MISUSE = 4096, G_ZERO = 8192, G_COPY = 1 << 14,
  G_REALLOC = 1 << 15, G_HEUR = 1 << 16, G_GROW = 1 << 17, G_OBSERVE = 1 << 18
};
struct Abandon {
};

struct World {
  Ctx& c;
  unsigned groups{~0u};
  bool closing{false};

  void violated(unsigned g, const char* kind, const char* fmt, ...) __attribute__((format(printf, 4, 5)))
  {
    char b[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (groups & g) c.fail(kind, "%s", b);
    // Most of what an allocator reports does not steer the model: a wrong report that another property's check is
    // responsible for is noted, and the history goes on.
    if ((g & (G_STATS | G_POOL | G_LOOKUP | G_OBSERVE)) && strcmp(kind, "pool-block-size") && strcmp(kind, "actual-size")) {
      c.label("foreign-report");
      return;
    }
    c.label("abandoned");
    c.trace("(abandoned: %s: %s)", kind, b);
    if (!closing) throw Abandon{};
  }
  umpire::ResourceManager& rm;
  std::vector<std::unique_ptr<Node>> nodes;
  std::map<Addr, UserAlloc> live; // tracked and untracked, size > 0
  std::map<Addr, UserAlloc> zero;
  std::map<Addr, std::vector<unsigned char>> shadow; // contents that are no longer the fill pattern
  unsigned serial{0};
  std::size_t max_total{std::size_t{1} << 24}; // cap on user bytes at any time
  std::size_t total{0};
  unsigned n_alloc{0}, n_free{0}, n_grow{0}, n_coalesce{0}, n_release{0}, n_fail{0};
  bool want_skew{true};
  bool vast{false}; // sizes around and beyond 2^31, 2^32 and 2^33
  bool many{false}; // thousands of allocations
  std::size_t vsize(std::size_t usual)
  {
    if (!vast || !c.chance(1, 2)) return c.size(usual);
    std::size_t b = std::size_t{1} << c.range(30, 33);
    switch (c.below(4)) {
      case 0: return b + c.below(65) - 32;
      case 1: return b * c.range(1, 3) + c.size(5000);
      case 2: return b + (c.below(b) & ~std::size_t{4095});
      default: return c.range(1, 5) * (std::size_t{1} << 32) + c.size(4096); // few bits left in 32
    }
  }

  explicit World(Ctx& ctx) : c(ctx), rm(umpire::ResourceManager::getInstance()) {}

  Node& node(int i) { return *nodes[i]; }

  std::string fresh(const char* base)
  {
    return std::string(base) + "_" + std::to_string(serial++);
  }

  // --- construction ------------------------------------------------------------------------------------
  int add(Kind k, int parent)
  {
    nodes.emplace_back(new Node);
    Node& n = *nodes.back();
    n.kind = k;
    n.id = static_cast<int>(nodes.size()) - 1;
    n.parent = parent;
    if (parent >= 0) node(parent).children.push_back(n.id);
    return n.id;
  }

  int make_host()
  {
    int i = add(K_HOST, -1);
    node(i).al = rm.getAllocator("HOST");
    node(i).name = "HOST";
    return i;
  }

  int make_leaf(int skew = -1)
  {
    if (skew < 0) skew = want_skew ? static_cast<int>(c.chance(1, 4) ? c.below(128) : 16 * c.below(8)) : 0;
    int i = add(K_SPY, -1);
    Node& n = node(i);
    n.name = fresh("leaf");
    n.al = rm.makeAllocator<Spy>(n.name, skew);
    n.below = dynamic_cast<Spy*>(n.al.getAllocationStrategy());
    n.below->busy = [this](Addr a, std::size_t s) { return user_data_in(a, s); };
    n.below->vast = vast;
    n.base_align = skew ? low_bit(static_cast<std::size_t>(skew)) : 1024;
    c.trace("%s = leaf memory resource, skew %d", n.name.c_str(), skew);
    return i;
  }

  Addr moving{0}; // allocation whose contents are being moved elsewhere by the operation under way
  struct Saved {
    UserAlloc u;
  };
  // Take an allocation out of the pool picture for a moment (prediction only).
  Saved hide(Addr p)
  {
    Saved s{live.at(p)};
    node(s.u.node).live.erase(p);
    return s;
  }
  void unhide(const Saved& s) { node(s.u.node).live.insert(s.u.p); }

  std::string user_data_in(Addr a, std::size_t s)
  {
    auto it = live.lower_bound(a);
    if (it != live.end() && it->first == moving) ++it;
    if (it != live.end() && it->first - a < s) {
      char b[200];
      snprintf(b, sizeof b, "block %p size %zu went back to its parent while allocation %p size %zu in it is live",
               (void*)a, s, (void*)it->first, it->second.n);
      return b;
    }
    return "";
  }

  Allocator interpose(Node& n)
  {
    Node& p = node(n.parent);
    std::string nm = fresh("spy");
    Allocator a = rm.makeAllocator<Spy>(nm, p.al);
    n.below = dynamic_cast<Spy*>(a.getAllocationStrategy());
    n.below->meter = &p.meter;
    n.below->meter_fixed = p.kind == K_FIXED ? p.obj : 0;
    n.below->busy = [this](Addr ad, std::size_t s) { return user_data_in(ad, s); };
    return a;
  }

  // An allocator that cannot be constructed (its parent refuses the first block) is a legal outcome; `built`
  // says whether it exists.
  bool built{true};
  std::function<void(Node&)> before_construction;
  std::string reuse_name;
  template <typename S, typename... A>
  void finish(Node& n, bool tracked, A&&... args)
  {
    n.name = reuse_name.empty() ? fresh(kind_name(n.kind)) : reuse_name;
    n.tracked = tracked;
    n.meter.align = n.align;
    built = true;
    Allocator base = interpose(n);
    if (before_construction) before_construction(n);
    try {
      if (tracked)
        n.al = rm.makeAllocator<S>(n.name, base, std::forward<A>(args)...);
      else
        n.al = rm.makeAllocator<S, false>(n.name, base, std::forward<A>(args)...);
    } catch (umpire::runtime_error& e) {
      built = false;
      c.trace("constructing %s threw", n.name.c_str());
    } catch (umpire::out_of_memory_error& e) {
      built = false;
      c.trace("constructing %s threw out_of_memory_error", n.name.c_str());
    }
    if (!built) {
      if (!n.below->error.empty()) violated(G_PARENT, "parent-protocol", "%s", n.below->error.c_str());
      WCHECK(*this, G_FAULT, n.below->live.empty() || n.below->denied == 0, "construction-leak",
             "constructing %s failed and left %zu blocks outstanding at its parent", n.name.c_str(), n.below->live.size());
      WCHECK(*this, G_FAULT, !rm.isAllocator(n.name), "construction-name", "constructing %s failed but the name is registered",
             n.name.c_str());
      for (auto& b : n.below->live) stray.insert(b.first);
    }
  }
  std::set<Addr> stray;
  // Forget a node whose construction failed.
  int settle(int i)
  {
    if (built) return i;
    Node& n = node(i);
    failed_spies.push_back(n.below);
    node(n.parent).children.pop_back();
    nodes.pop_back();
    ++n_fail;
    return -1;
  }
  std::vector<Spy*> failed_spies;

  template <typename P>
  umpire::strategy::PoolCoalesceHeuristic<P> heuristic(Node& n)
  {
    switch (n.heur) {
      case H_PCT: return P::percent_releasable(static_cast<int>(n.heur_n));
      case H_PCT_HWM: return P::percent_releasable_hwm(static_cast<int>(n.heur_n));
      case H_BLK: return P::blocks_releasable(n.heur_n);
      case H_BLK_HWM: return P::blocks_releasable_hwm(n.heur_n);
      default: return P::percent_releasable_hwm(100);
    }
  }

  void pick_heuristic(Node& n)
  {
    switch (c.weighted({5, 2, 2, 2, 2})) {
      case 0: n.heur = H_DEFAULT; n.heur_n = 100; break;
      case 1: n.heur = H_PCT; break;
      case 2: n.heur = H_PCT_HWM; break;
      case 3: n.heur = H_BLK; break;
      default: n.heur = H_BLK_HWM; break;
    }
    if (n.heur == H_PCT || n.heur == H_PCT_HWM) {
      static const int v[] = {0, 100, 50, 1, 99, 25, 75, 33, 10, 66};
      n.heur_n = v[c.below(10)];
    } else if (n.heur != H_DEFAULT)
      n.heur_n = 1 + c.below(6);
  }

  int make_pool(Kind k, int parent, bool tracked = true)
  {
    int i = add(k, parent);
    Node& n = node(i);
    n.first = vsize(1 << 14);
    n.next = vsize(1 << 12);
    n.align = std::size_t{1} << c.range(0, 10);
    if (c.chance(1, 2)) n.align = 16;
    pick_heuristic(n);
    if (k == K_QUICK)
      finish<umpire::strategy::QuickPool>(n, tracked, n.first, n.next, n.align,
                                          heuristic<umpire::strategy::QuickPool>(n));
    else
      finish<umpire::strategy::DynamicPoolList>(n, tracked, n.first, n.next, n.align,
                                                heuristic<umpire::strategy::DynamicPoolList>(n));
    c.trace("%s = %s over %s first %zu next %zu align %zu heuristic %d/%zu%s", n.name.c_str(), kind_name(k),
            node(parent).name.c_str(), n.first, n.next, n.align, n.heur, n.heur_n, tracked ? "" : " untracked");
    c.label(kind_name(k));
    return settle(i);
  }

  int make_strategy(Kind k, int parent)
  {
    if (is_pool(k)) return make_pool(k, parent);
    int i = add(k, parent);
    Node& n = node(i);
    std::size_t fr = node(parent).fixed_req;
    char par[200] = "";
    switch (k) {
      case K_FIXED: {
        n.obj = c.chance(1, 3) ? c.range(1, 40) : c.size(512);
        n.per_pool = c.chance(1, 3) ? c.range(1, 6) : c.range(1, 140);
        if (vast) n.obj = vsize(512);
        if (many && c.chance(1, 2)) n.per_pool = c.range(100, 40000), n.obj = c.range(1, 24), n.fixed_req = n.obj;
        n.fixed_req = n.obj;
        finish<umpire::strategy::FixedPool>(n, true, n.obj, n.per_pool);
        snprintf(par, sizeof par, "object %zu per pool %zu", n.obj, n.per_pool);
        break;
      }
      case K_MIXED: {
        n.mx_small = std::size_t{1} << c.range(3, 7);
        n.mx_large = n.mx_small << c.range(0, 5);
        n.mx_max = n.mx_small * c.range(1, 40);
        n.mx_mult = c.range(2, 4);
        n.first = vsize(1 << 13);
        n.next = vsize(1 << 12);
        n.align = std::size_t{1} << c.range(3, 8);
        finish<umpire::strategy::MixedPool>(n, true, n.mx_small, n.mx_large, n.mx_max, n.mx_mult, n.first, n.next,
                                            n.align);
        snprintf(par, sizeof par, "fixed %zu..%zu x%zu max %zu quick %zu/%zu align %zu", n.mx_small, n.mx_large,
                 n.mx_mult, n.mx_max, n.first, n.next, n.align);
        break;
      }
      case K_MONO:
        n.capacity = vsize(1 << 15) + 64;
        finish<umpire::strategy::MonotonicAllocationStrategy>(n, true, n.capacity);
        snprintf(par, sizeof par, "capacity %zu", n.capacity);
        break;
      case K_SLOT:
        n.slots = many && c.chance(2, 3) ? c.range(60, 400) : c.range(1, 12);
        finish<umpire::strategy::SlotPool>(n, true, n.slots);
        snprintf(par, sizeof par, "slots %zu", n.slots);
        break;
      case K_LIMIT:
        n.limit = vsize(1 << 15);
        n.fixed_req = fr;
        if (fr) n.limit = fr * c.range(1, 30) + c.below(fr);
        finish<umpire::strategy::SizeLimiter>(n, true, n.limit);
        snprintf(par, sizeof par, "limit %zu", n.limit);
        break;
      case K_TSAFE:
        n.fixed_req = fr;
        finish<umpire::strategy::ThreadSafeAllocator>(n, true);
        break;
      case K_ALIGN:
        n.align = std::size_t{16} << c.range(0, 8);
        finish<umpire::strategy::AlignedAllocator>(n, true, n.align);
        snprintf(par, sizeof par, "align %zu", n.align);
        break;
      case K_SHIM:
        n.fixed_req = fr;
        finish<umpire::strategy::NamingShim>(n, true);
        break;
      default:
        n.kind = K_NAMED;
        n.fixed_req = fr;
        finish<umpire::strategy::NamedAllocationStrategy>(n, true);
        break;
    }
    c.trace("%s = %s over %s %s", n.name.c_str(), kind_name(n.kind), node(parent).name.c_str(), par);
    c.label(kind_name(n.kind));
    return settle(i);
  }

  // Which strategies may sit on `parent`? (A FixedPool serves one size only; slots and one-shot blocks run out.)
  std::vector<Kind> stackable(int parent)
  {
    Node& p = node(parent);
    if (p.fixed_req) return {K_NAMED, K_LIMIT, K_TSAFE, K_SHIM};
    return {K_QUICK, K_LIST, K_FIXED, K_MIXED, K_MONO, K_SLOT, K_LIMIT, K_TSAFE, K_ALIGN, K_NAMED, K_SHIM};
  }

  // --- contents ----------------------------------------------------------------------------------------
  static unsigned char pat(std::uint32_t seed, std::size_t i)
  {
    std::uint32_t x = seed + static_cast<std::uint32_t>(i) * 2654435761u;
    return static_cast<unsigned char>(x >> 24 ^ x >> 11);
  }
  template <typename F>
  static void each_checked(std::size_t n, F f)
  {
    if (n <= 4096) {
      for (std::size_t i = 0; i < n; ++i) f(i);
    } else if (n > (std::size_t{1} << 24)) {
      for (std::size_t i = 0; i < 512; ++i) f(i);
      for (std::size_t i = 1; i < 24; ++i) f(n / 24 * i);
      for (std::size_t b = std::size_t{1} << 31; b < n - 512 && b <= std::size_t{1} << 34; b *= 2)
        for (std::size_t i = b - 8; i < b + 8; ++i) f(i);
      for (std::size_t i = n - 512; i < n; ++i) f(i);
    } else {
      for (std::size_t i = 0; i < 1024; ++i) f(i);
      for (std::size_t i = 1024; i < n - 1024; i += 61) f(i);
      for (std::size_t i = n - 1024; i < n; ++i) f(i);
    }
  }
  void fill(UserAlloc& a)
  {
    a.seed = serial++ * 7919u + 13;
    unsigned char* q = reinterpret_cast<unsigned char*>(a.p);
    std::uint32_t s = a.seed;
    each_checked(a.n, [=](std::size_t i) { q[i] = pat(s, i); });
  }
  void verify(const UserAlloc& a, const char* when, std::size_t upto = SIZE_MAX)
  {
    verify_at(a, a.p, when, upto);
  }
  // Do the bytes at `at` equal the contents of `a`?
  void verify_at(const UserAlloc& a, Addr at, const char* when, std::size_t upto = SIZE_MAX)
  {
    unsigned char* q = reinterpret_cast<unsigned char*>(at);
    std::size_t lim = std::min(a.n, upto);
    auto sh = shadow.find(a.p);
    if (sh != shadow.end()) {
      for (std::size_t i = 0; i < lim; ++i)
        if (q[i] != sh->second[i])
          violated(G_CONTENT, "content-lost", "%s: byte %zu of allocation %p size %zu from %s is %02x, it should be %02x", when, i,
                 (void*)a.p, a.n, node(a.node).name.c_str(), q[i], sh->second[i]);
      return;
    }
    // sampled where fill() wrote, which depends on the whole size
    each_checked(a.n, [&](std::size_t i) {
      if (i < lim && q[i] != pat(a.seed, i))
        violated(G_CONTENT, "content-lost", "%s: byte %zu of allocation %p size %zu from %s is %02x, %02x was written", when, i,
               (void*)a.p, a.n, node(a.node).name.c_str(), q[i], pat(a.seed, i));
    });
  }
  std::vector<unsigned char>& shadow_of(const UserAlloc& a)
  {
    auto it = shadow.find(a.p);
    if (it != shadow.end()) return it->second;
    std::vector<unsigned char> v(a.n);
    // bytes the pattern skipped are whatever the memory holds
    memcpy(v.data(), (void*)a.p, a.n);
    return shadow[a.p] = v;
  }
  void verify_all(const char* when)
  {
    for (auto& e : live) verify(e.second, when);
  }

  // --- placement ---------------------------------------------------------------------------------------
  void check_placement(const UserAlloc& a)
  {
    WCHECK(*this, G_PLACE, a.p != 0, "null", "%s returned a null pointer for %zu bytes", node(a.node).name.c_str(), a.n);
    WCHECK(*this, G_PLACE, a.p + a.n >= a.p, "wraps", "%p + %zu wraps", (void*)a.p, a.n);
    auto it = live.lower_bound(a.p);
    if (it != live.end())
      WCHECK(*this, G_PLACE, it->first - a.p >= a.n && it->first != a.p, "overlap", "%p size %zu from %s overlaps live %p size %zu from %s",
             (void*)a.p, a.n, node(a.node).name.c_str(), (void*)it->first, it->second.n,
             node(it->second.node).name.c_str());
    if (it != live.begin()) {
      --it;
      WCHECK(*this, G_PLACE, a.p - it->first >= it->second.n, "overlap", "%p size %zu from %s overlaps live %p size %zu from %s",
             (void*)a.p, a.n, node(a.node).name.c_str(), (void*)it->first, it->second.n,
             node(it->second.node).name.c_str());
    }
    // inside a block each level of the chain really holds
    int at = a.node;
    while (at >= 0) {
      Node& n = node(at);
      if (n.below) {
        auto b = n.below->live.upper_bound(a.p);
        bool in = false;
        if (b != n.below->live.begin()) {
          --b;
          in = a.p - b->first + a.n <= b->second.size;
        }
        WCHECK(*this, G_PLACE, in, "outside", "%p size %zu from %s does not lie in any block that %s holds", (void*)a.p, a.n,
               node(a.node).name.c_str(), n.name.c_str());
      }
      at = n.parent;
    }
  }

  // --- operations --------------------------------------------------------------------------------------
  struct Result {
    bool ok{false};
    bool oom{false};
    std::string what;
    Addr p{0};
    int err_id{-2};
    std::size_t err_size{0};
    bool std_type{false};
  };

  Result raw_alloc(Node& n, std::size_t bytes, const std::string* name)
  {
    Result r;
    try {
      void* p = name ? n.al.allocate(*name, bytes) : n.al.allocate(bytes);
      r.ok = true;
      r.p = reinterpret_cast<Addr>(p);
    } catch (umpire::out_of_memory_error& e) {
      r.oom = true;
      r.std_type = true;
      r.what = e.what();
      r.err_id = e.get_allocator_id();
      r.err_size = e.requested_size();
    } catch (umpire::runtime_error& e) {
      r.std_type = true;
      r.what = e.what();
    } catch (std::exception& e) {
      r.what = e.what();
    }
    return r;
  }

  static std::size_t low_bit(std::size_t x) { return x & (~x + 1); }
  std::size_t promised_alignment(Node& n, std::size_t bytes)
  {
    switch (n.kind) {
      case K_QUICK: case K_LIST: case K_ALIGN: return n.align;
      case K_HOST: return 16;
      // objects lie one after the other from the start of a block
      case K_MIXED: return bytes > n.mx_large ? n.align : std::min({n.align, low_bit(n.mx_small), promised_alignment(node(n.parent), 1)});
      case K_FIXED: return std::min(low_bit(n.obj), promised_alignment(node(n.parent), 1));
      case K_SPY: return n.base_align;
      case K_NAMED: case K_LIMIT: case K_TSAFE: case K_SHIM: case K_SLOT:
        return promised_alignment(node(n.parent), bytes);
      default: return 1;
    }
  }

  // Book a successful allocation in the model.
  void book(Node& n, Addr p, std::size_t bytes, const std::string& name)
  {
    UserAlloc a{p, bytes, n.id, 0, name};
    ++n_alloc;
    if (bytes == 0) {
      zero[p] = a;
      ++n.zero;
      if (n.tracked) n.meter.count++;
      return;
    }
    check_placement(a);
    std::size_t al = promised_alignment(n, bytes);
    WCHECK(*this, G_ALIGN, p % al == 0, "misaligned", "%s returned %p for %zu bytes, %zu-byte alignment was promised",
           n.name.c_str(), (void*)p, bytes, al);
    std::size_t m = n.kind == K_FIXED ? n.obj : bytes;
    n.meter.add(m);
    n.live.insert(p);
    total += bytes;
    fill(a);
    live[p] = a;
  }
  void unbook(Addr p)
  {
    auto z = zero.find(p);
    if (z != zero.end()) {
      Node& n = node(z->second.node);
      --n.zero;
      if (n.tracked) n.meter.count--;
      zero.erase(z);
      return;
    }
    auto it = live.find(p);
    Node& n = node(it->second.node);
    std::size_t m = n.kind == K_FIXED ? n.obj : it->second.n;
    n.meter.sub(m);
    n.live.erase(p);
    total -= it->second.n;
    shadow.erase(p);
    live.erase(it);
    ++n_free;
  }

  // Allocate; the caller says whether refusal is acceptable.
  Result alloc(Node& n, std::size_t bytes, const std::string* name = nullptr)
  {
    Result r = raw_alloc(n, bytes, name);
    c.trace("%s.allocate(%s%s%zu) -> %s", n.name.c_str(), name ? name->c_str() : "", name ? ", " : "", bytes,
            r.ok ? ptr(r.p).c_str() : (r.oom ? "out_of_memory_error" : "error"));
    if (r.ok) book(n, r.p, bytes, name ? *name : "");
    return r;
  }

  std::string ptr(Addr p)
  {
    // addresses vary between runs: name them by owner block where possible, else plain
    char b[40];
    snprintf(b, sizeof b, "%p", (void*)p);
    return b;
  }

  void dealloc(Addr p, bool via_rm = false)
  {
    auto it = live.find(p);
    bool z = it == live.end();
    int ni = z ? zero.at(p).node : it->second.node;
    Node& n = node(ni);
    c.trace("%s.deallocate(%p)%s%s", via_rm && n.tracked ? "rm" : n.name.c_str(), (void*)p, z ? " zero-byte" : "", "");
    if (!z) verify(it->second, "before deallocate");
    // The model forgets the allocation first: while the pool frees, it is no longer user data.
    UserAlloc a = z ? zero.at(p) : it->second;
    unbook(p);
    try {
      if (via_rm && n.tracked)
        rm.deallocate((void*)p);
      else
        n.al.deallocate((void*)p);
    } catch (std::exception& e) {
      violated(G_SERVE, "deallocate-throws", "deallocating live %p size %zu of %s threw: %s", (void*)p, a.n, n.name.c_str(),
             e.what());
    }
  }

  void check_spies()
  {
    for (auto& n : nodes)
      if (n->below && !n->below->error.empty()) violated(G_PARENT, "parent-protocol", "%s", n->below->error.c_str());
  }

  Addr some_live()
  {
    std::size_t k = c.below(live.size());
    auto it = live.begin();
    std::advance(it, k);
    return it->first;
  }
  Addr some_zero()
  {
    std::size_t k = c.below(zero.size());
    auto it = zero.begin();
    std::advance(it, k);
    return it->first;
  }

  // --- statistics --------------------------------------------------------------------------------------
  void check_stats(Node& n, const char* when)
  {
    if (!n.tracked) return;
    std::size_t cur = n.al.getCurrentSize(), hwm = n.al.getHighWatermark(), cnt = n.al.getAllocationCount();
    std::size_t want_cur = n.kind == K_MONO ? n.meter.ever : n.meter.bytes;
    std::size_t want_hwm = n.kind == K_MONO ? n.capacity : n.meter.max_bytes;
    WCHECK(*this, G_STATS, cur == want_cur, "current-size", "%s: %s reports current size %zu, %zu bytes are in use", when,
           n.name.c_str(), cur, want_cur);
    WCHECK(*this, G_STATS, hwm == want_hwm, "high-watermark", "%s: %s reports high watermark %zu, the largest size so far was %zu",
           when, n.name.c_str(), hwm, want_hwm);
    WCHECK(*this, G_STATS, cnt == n.meter.count, "allocation-count", "%s: %s reports %zu allocations, %zu are live", when,
           n.name.c_str(), cnt, n.meter.count);
  }
  void check_all_stats(const char* when)
  {
    for (auto& n : nodes) check_stats(*n, when);
  }

  // --- pool model --------------------------------------------------------------------------------------
  struct PoolStat {
    std::size_t actual, releasable, aligned, blocks_total, blocks_rel, blocks_in, largest, actual_hwm, aligned_hwm;
  };
  PoolStat pool_stat(Node& n)
  {
    PoolStat s{};
    AllocationStrategy* st = n.al.getAllocationStrategy();
    if (n.kind == K_QUICK) {
      auto* q = dynamic_cast<umpire::strategy::QuickPool*>(st);
      s = {q->getActualSize(), q->getReleasableSize(), q->getAlignedSize(), q->getTotalBlocks(),
           q->getReleasableBlocks(), q->getBlocksInPool(), q->getLargestAvailableBlock(), q->getActualHighwaterMark(),
           q->getAlignedHighwaterMark()};
    } else {
      auto* q = dynamic_cast<umpire::strategy::DynamicPoolList*>(st);
      s = {q->getActualSize(), q->getReleasableSize(), q->getAlignedSize(), q->getTotalBlocks(),
           q->getReleasableBlocks(), q->getBlocksInPool(), q->getLargestAvailableBlock(), q->getActualHighwaterMark(),
           q->getAlignedHighwaterMark()};
    }
    return s;
  }

  // Follow the blocks the pool took from and gave back to its parent. Returns how many are new / gone.
  std::pair<unsigned, unsigned> sync_pool(Node& n)
  {
    std::size_t actual = n.al.getActualSize();
    std::set<std::uint64_t> now;
    for (auto& b : n.below->live) now.insert(b.second.serial);
    unsigned gone = 0, fresh_blocks = 0;
    std::size_t kept = 0;
    std::map<std::uint64_t, std::size_t> usable; // of every block held at some time since the last look
    std::size_t running = 0;
    for (auto& b : n.blocks) {
      usable[b.serial] = b.size;
      running += b.size;
    }
    std::vector<PoolBlock> stay;
    for (auto& b : n.blocks)
      if (now.count(b.serial)) {
        now.erase(b.serial);
        kept += b.size;
        stay.push_back(b);
      } else
        ++gone;
    n.blocks.swap(stay);
    for (auto& b : n.below->live) {
      if (!now.count(b.second.serial)) continue;
      ++fresh_blocks;
      PoolBlock pb;
      pb.base = b.first;
      pb.serial = b.second.serial;
      pb.start = round_up(b.first, n.align);
      // What the pool adds to its actual size is the usable part of the block.
      pb.size = now.size() == 1 && actual >= kept ? actual - kept : b.second.size - n.align;
      n.blocks.push_back(pb);
      if (pb.start + pb.size > b.first + b.second.size || pb.size == 0)
        violated(G_POOL, "pool-block-size", "%s counts %zu usable bytes for the block %p of %zu bytes it took from its parent",
               n.name.c_str(), pb.size, (void*)b.first, b.second.size);
    }
    std::sort(n.blocks.begin(), n.blocks.end(), [](const PoolBlock& a, const PoolBlock& b) { return a.start < b.start; });
    for (auto& b : n.blocks) usable[b.serial] = b.size;
    for (auto& e : n.below->journal) {
      std::size_t sz = usable.count(e.serial) ? usable[e.serial] : e.size - n.align;
      if (e.add) running += sz;
      else running -= sz;
      n.actual_max = std::max(n.actual_max, running);
    }
    n.below->journal.clear();
    std::size_t sum = 0;
    for (auto& b : n.blocks) sum += b.size;
    n.actual_max = std::max(n.actual_max, sum);
    return {fresh_blocks, gone};
  }

  struct Free {
    std::size_t total_blocks{0}, rel_blocks{0}, rel_bytes{0}, largest{0}, chunks{0}, aligned{0}, actual{0}, fragments{0};
  };
  Free pool_model(Node& n)
  {
    Free f;
    std::map<Addr, std::size_t> used; // what the pool has handed out
    for (Addr p : n.live) used[p] = round_up(live.at(p).n, n.align);
    for (int ch : n.children)
      for (auto& b : node(ch).below->live) used[b.first] = round_up(b.second.size, n.align);
    for (auto& u : used) f.aligned += u.second;
    for (auto& b : n.blocks) {
      ++f.total_blocks;
      f.actual += b.size;
      Addr at = b.start;
      std::size_t nused = 0;
      auto gap = [&](Addr to) {
        if (to > at) {
          f.largest = std::max<std::size_t>(f.largest, to - at);
          ++f.chunks;
          ++f.fragments;
        }
      };
      for (auto it = used.lower_bound(b.start); it != used.end() && it->first < b.start + b.size; ++it) {
        gap(it->first);
        at = it->first + it->second;
        ++nused;
        ++f.chunks;
      }
      gap(b.start + b.size);
      if (!nused) {
        ++f.rel_blocks;
        f.rel_bytes += b.size;
      }
    }
    return f;
  }

  void check_pool(Node& n, const char* when)
  {
    PoolStat s = pool_stat(n);
    Free f = pool_model(n);
    n.aligned_max = n.meter.max_aligned;
    const char* nm = n.name.c_str();
    WCHECK(*this, G_POOL, s.actual == f.actual, "actual-size", "%s: %s reports actual size %zu, it holds %zu", when, nm, s.actual,
           f.actual);
    WCHECK(*this, G_POOL, s.blocks_total == f.total_blocks, "total-blocks", "%s: %s reports %zu blocks, it holds %zu", when, nm,
           s.blocks_total, f.total_blocks);
    WCHECK(*this, G_POOL, s.blocks_rel == f.rel_blocks, "releasable-blocks", "%s: %s reports %zu releasable blocks, %zu are entirely free",
           when, nm, s.blocks_rel, f.rel_blocks);
    WCHECK(*this, G_POOL, s.releasable == f.rel_bytes, "releasable-size", "%s: %s reports %zu releasable bytes, entirely free blocks sum to %zu",
           when, nm, s.releasable, f.rel_bytes);
    WCHECK(*this, G_POOL, s.aligned == f.aligned, "aligned-size", "%s: %s reports aligned size %zu, live allocations round up to %zu",
           when, nm, s.aligned, f.aligned);
    WCHECK(*this, G_POOL, s.largest == f.largest, "largest-available", "%s: %s reports largest available block %zu, the largest free run is %zu",
           when, nm, s.largest, f.largest);
    WCHECK(*this, G_POOL, s.blocks_in == f.chunks, "blocks-in-pool", "%s: %s reports %zu pieces in the pool, there are %zu", when,
           nm, s.blocks_in, f.chunks);
    WCHECK(*this, G_POOL, s.actual_hwm == n.actual_max, "actual-hwm", "%s: %s reports actual high watermark %zu, the largest was %zu",
           when, nm, s.actual_hwm, n.actual_max);
    bool exact = n.heur == H_DEFAULT || (n.heur == H_PCT_HWM && n.heur_n == 100) ||
                 ((n.heur == H_PCT || n.heur == H_PCT_HWM) && n.heur_n == 0);
    if (!exact) // coalescing may raise this mark by the block it rebuilds
      WCHECK(*this, G_POOL, s.aligned_hwm >= n.aligned_max && s.aligned_hwm <= std::max(n.actual_max, n.aligned_max), "aligned-hwm",
             "%s: %s reports aligned high watermark %zu, outside [%zu, %zu]", when, nm, s.aligned_hwm, n.aligned_max,
             n.actual_max);
    else
      WCHECK(*this, G_POOL, s.aligned_hwm == n.aligned_max, "aligned-hwm", "%s: %s reports aligned high watermark %zu, the largest was %zu",
             when, nm, s.aligned_hwm, n.aligned_max);
  }

  // Brings every pool model up to date. `releasing` is the pool whose release() the user just called, if any.
  void sync_pools(int releasing = -1)
  {
    for (auto& n : nodes)
      if (is_pool(n->kind)) {
        auto r = sync_pool(*n);
        if (r.first) ++n_grow;
        if (r.first && r.second) ++n_coalesce;
        if (r.second && n->id != releasing) n->coalesced = true;
      }
  }

  // --- record lookup -----------------------------------------------------------------------------------
  const UserAlloc* owner_of(Addr a)
  {
    auto z = zero.find(a);
    if (z != zero.end() && node(z->second.node).tracked) return &z->second;
    auto it = live.upper_bound(a);
    while (it != live.begin()) {
      --it;
      if (!node(it->second.node).tracked) continue;
      if (a - it->first < it->second.n) return &it->second;
      break;
    }
    return nullptr;
  }

  void check_lookup(Addr a)
  {
    const UserAlloc* u = owner_of(a);
    void* p = (void*)a;
    bool has = rm.hasAllocator(p);
    WCHECK(*this, G_LOOKUP, has == (u != nullptr), "has-allocator", "hasAllocator(%p) is %d, it %s to a live allocation", p, has,
           u ? "belongs" : "does not belong");
    if (!u) {
      bool t1 = false, t2 = false;
      try { rm.getSize(p); } catch (umpire::runtime_error&) { t1 = true; }
      try { rm.getAllocator(p); } catch (umpire::runtime_error&) { t2 = true; }
      WCHECK(*this, G_LOOKUP, t1 && t2, "unknown-accepted", "getSize/getAllocator(%p) answered for a pointer that belongs to nothing", p);
      return;
    }
    Node& n = node(u->node);
    try {
      WCHECK(*this, G_LOOKUP, rm.getSize(p) == u->n, "get-size", "getSize(%p) is %zu, the allocation has %zu", p, rm.getSize(p), u->n);
      WCHECK(*this, G_LOOKUP, n.al.getSize(p) == u->n, "get-size", "Allocator::getSize(%p) is %zu, the allocation has %zu", p,
             n.al.getSize(p), u->n);
      Allocator g = rm.getAllocator(p);
      WCHECK(*this, G_LOOKUP, g.getName() == n.name && g.getId() == n.al.getId(), "get-allocator", "getAllocator(%p) is %s, it came from %s",
             p, g.getName().c_str(), n.name.c_str());
      const umpire::util::AllocationRecord* r = rm.findAllocationRecord(p);
      WCHECK(*this, G_LOOKUP, r->ptr == (void*)u->p && r->size == u->n && r->strategy == n.al.getAllocationStrategy(), "record",
             "record of %p is {%p,%zu}, the allocation is {%p,%zu}", p, r->ptr, r->size, (void*)u->p, u->n);
      WCHECK(*this, G_LOOKUP, r->name == u->name, "record-name", "record of %p has name \"%s\", it was allocated as \"%s\"", p,
             r->name.c_str(), u->name.c_str());
    } catch (umpire::runtime_error& e) {
      violated(G_LOOKUP, "lookup-throws", "lookup of %p inside a live allocation threw: %s", p, e.what());
    }
  }
  void check_lookup_around(const UserAlloc& u)
  {
    check_lookup(u.p);
    check_lookup(u.p + u.n);
    check_lookup(u.p - 1);
    if (u.n) {
      check_lookup(u.p + u.n - 1);
      check_lookup(u.p + u.n / 2);
      check_lookup(u.p + 1);
    }
  }

  // --- generation --------------------------------------------------------------------------------------
  std::size_t gen_size(Node& n)
  {
    if (n.fixed_req) return n.fixed_req;
    if (n.kind == K_SLOT && !n.live.empty() && c.chance(1, 2)) return live.at(*n.live.begin()).n;
    if (is_pool(n.kind)) {
      switch (c.weighted({6, 3, 2, 2})) {
        case 0: return vast ? vsize(1 << 11) : c.size(1 << 11);
        case 1: { // around what the pool can still serve
          std::size_t l = pool_stat(n).largest;
          std::size_t d = c.below(5);
          std::size_t r = l + d;
          return r > 2 ? r - 2 : 1;
        }
        case 2: return std::max<std::size_t>(1, n.next + c.below(3) - 1);
        default: return vsize(1 << 14);
      }
    }
    if (n.kind == K_MIXED) {
      switch (c.weighted({3, 3})) {
        case 0: return vsize(1 << 12);
        default: return std::max<std::size_t>(1, (n.mx_small << c.below(6)) + c.below(3) - 1);
      }
    }
    if (n.kind == K_MONO) return c.chance(1, 2) ? c.range(1, 40) : c.size(n.capacity / 4 + 1);
    return n.kind == K_HOST ? c.size(1 << 12) : vsize(1 << 12);
  }

  // Are all allocators above the leaf and below this one free of limits?
  bool must_succeed_above(Node& n)
  {
    int at = n.parent;
    while (at >= 0) {
      Kind k = node(at).kind;
      if (k == K_MONO || k == K_SLOT || k == K_LIMIT) return false;
      at = node(at).parent;
    }
    return true;
  }

  // Is the node, as far as the model can tell, certain to serve this request? (no faults injected)
  bool must_succeed(Node& n, std::size_t bytes)
  {
    int at = n.id;
    bool first = true;
    while (at >= 0) {
      Node& m = node(at);
      if (m.kind == K_MONO || m.kind == K_SLOT || m.kind == K_LIMIT) {
        if (!first) return false;
        if (m.kind == K_MONO && m.meter.ever + bytes > m.capacity) return false;
        if (m.kind == K_LIMIT && m.meter.bytes + bytes > m.limit) return false;
        if (m.kind == K_SLOT) return false;
      }
      first = false;
      at = m.parent;
    }
    return true;
  }
};

} // namespace world

#endif
