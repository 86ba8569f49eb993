// C26: with UMPIRE_ENABLE_ASAN the pools tell AddressSanitizer which of their memory is in use.
#include "world.hpp"

#include <sanitizer/asan_interface.h>

using namespace pbt;
using world::Spy;
using umpire::Allocator;
namespace st = umpire::strategy;

namespace {

void poison(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  static unsigned serial = 0;
  std::string u = std::to_string(serial++);
  Allocator leaf = c.chance(1, 3) ? rm.getAllocator("HOST") : rm.makeAllocator<Spy>("leaf" + u, (int)(c.below(3) * 8));
  Allocator base = leaf;
  unsigned bk = (unsigned)c.below(7);
  const char* bname = "resource";
  switch (bk) {
    case 1: base = rm.makeAllocator<st::MixedPool>("base" + u, leaf); bname = "MixedPool"; break;
    case 2: base = rm.makeAllocator<st::QuickPool>("base" + u, leaf, c.size(4000), c.size(2000), std::size_t{8} << c.below(4)); bname = "QuickPool"; break;
    case 3: base = rm.makeAllocator<st::DynamicPoolList>("base" + u, leaf, c.size(4000), c.size(2000), std::size_t{8} << c.below(4)); bname = "DynamicPoolList"; break;
    case 4: base = rm.makeAllocator<st::ThreadSafeAllocator>("base" + u, rm.makeAllocator<st::MixedPool>("mixed" + u, leaf)); bname = "ThreadSafe over MixedPool"; break;
    case 5: base = rm.makeAllocator<st::AlignedAllocator>("base" + u, leaf, std::size_t{16} << c.below(4)); bname = "Aligned"; break;
    case 6: base = rm.makeAllocator<st::SizeLimiter>("base" + u, leaf, 1 << 20); bname = "SizeLimiter"; break;
    default: break;
  }
  c.label(bname);
  bool large = bk != 6 && bk != 1 && bk != 4 && c.chance(1, 16);
  std::size_t top = large ? 250000 : 1200;
  if (large) c.label("large");
  Allocator mid = rm.makeAllocator<Spy>("mid" + u, base);
  Spy* spy = umpire::util::unwrap_allocator<Spy>(mid);
  bool list = c.chance(1, 2), mixed = c.chance(1, 5);
  std::size_t first = c.size(large ? 400000 : 3000), nextmin = c.size(large ? 200000 : 800), align = std::size_t{8} << c.below(5);
  Allocator pool;
  if (mixed)
    pool = rm.makeAllocator<st::MixedPool>("pool" + u, mid, 64, 1 << 12, 1 << 11, 4, first, nextmin, align);
  else if (list)
    pool = rm.makeAllocator<st::DynamicPoolList>("pool" + u, mid, first, nextmin, align, c.chance(1, 2) ? st::DynamicPoolList::percent_releasable(0) : st::DynamicPoolList::percent_releasable((int)c.range(50, 100)));
  else
    pool = rm.makeAllocator<st::QuickPool>("pool" + u, mid, first, nextmin, align, c.chance(1, 2) ? st::QuickPool::percent_releasable(0) : st::QuickPool::percent_releasable((int)c.range(50, 100)));
  c.label(mixed ? "pool=Mixed" : list ? "pool=List" : "pool=Quick");
  c.trace("%s(%zu, %zu, %zu) over %s", mixed ? "MixedPool" : list ? "DynamicPoolList" : "QuickPool", first, nextmin, align, bname);

  struct Live {
    std::size_t n;
    int who; // 0 pool, 1 base
    unsigned char tag;
  };
  std::map<char*, Live> live;
  unsigned char tag = 0;
  unsigned frees = 0, returned = 0;

  auto check = [&](const char* after) {
    for (auto& l : live) {
      if (!l.second.n) continue;
      void* bad = __asan_region_is_poisoned(l.first, l.second.n);
      PCHECK(c, !bad, "live-poisoned", "after %s byte %zd of a live allocation of %zu bytes from the %s may not be touched", after, (char*)bad - l.first,
             l.second.n, l.second.who ? bname : "pool");
      for (std::size_t i = 0; i < l.second.n; ++i)
        PCHECK(c, (unsigned char)l.first[i] == l.second.tag, "data", "after %s byte %zu of a live allocation of %zu bytes changed", after, i, l.second.n);
    }
    if (mixed) return;
    for (auto& b : spy->live) {
      char* at = reinterpret_cast<char*>(b.first);
      char* end = at + b.second.size / 8 * 8; // a partial granule at the end cannot be expressed
      auto it = live.lower_bound(at);
      for (char* p = at; p < end;) {
        while (it != live.end() && (it->first + it->second.n <= p || it->second.who || !it->second.n)) ++it;
        if (it != live.end() && it->first <= p) {
          p = it->first + it->second.n;
          continue;
        }
        PCHECK(c, __asan_address_is_poisoned(p), "free-accessible", "after %s byte %zu of a block of %zu bytes held by the pool is in no live allocation, but may be touched",
               after, (std::size_t)(p - at), b.second.size);
        ++p;
      }
    }
  };

  check("making the pool");
  while (c.more(large ? 12 : 70)) {
    c.step();
    switch (c.weighted({9, 7, 2, 2, 2, 2, 1})) {
      case 0: {
        std::size_t n = c.chance(1, 15) ? 0 : c.size(top);
        c.trace("allocate %zu", n);
        char* p = static_cast<char*>(pool.allocate(n));
        void* bad = n ? __asan_region_is_poisoned(p, n) : nullptr;
        PCHECK(c, !bad, "live-poisoned", "byte %zd of a fresh allocation of %zu bytes may not be touched", (char*)bad - p, n);
        memset(p, ++tag, n);
        live[p] = {n, 0, tag};
        break;
      }
      case 1: {
        if (live.empty()) break;
        auto it = live.begin();
        std::advance(it, c.below(live.size()));
        char* p = it->first;
        Live l = it->second;
        live.erase(it);
        c.trace("free %zu of the %s", l.n, l.who ? bname : "pool");
        rm.deallocate(p);
        ++frees;
        break;
      }
      case 2: {
        std::size_t n = c.size(top);
        char* p;
        c.trace("allocate %zu from the %s below", n, bname);
        try {
          p = static_cast<char*>(base.allocate(n));
        } catch (umpire::runtime_error&) {
          break;
        }
        void* bad = __asan_region_is_poisoned(p, n);
        PCHECK(c, !bad, "live-poisoned", "byte %zd of a fresh allocation of %zu bytes from the %s below the pool may not be touched", (char*)bad - p, n, bname);
        memset(p, ++tag, n);
        live[p] = {n, 1, tag};
        break;
      }
      case 3:
        if (mixed) break;
        c.trace("release");
        pool.release();
        if (spy->calls_dealloc) ++returned;
        break;
      case 4:
        c.trace("coalesce");
        if (mixed) break;
        umpire::coalesce(pool);
        break;
      case 5: {
        if (live.empty()) break;
        auto it = live.begin();
        std::advance(it, c.below(live.size()));
        if (!it->second.n) break;
        std::size_t n = c.size(top);
        Live l = it->second;
        char* p = it->first;
        c.trace("reallocate %zu to %zu", l.n, n);
        char* q;
        try {
          q = static_cast<char*>(rm.reallocate(p, n));
        } catch (umpire::runtime_error&) {
          break;
        }
        live.erase(p);
        void* bad = __asan_region_is_poisoned(q, n);
        PCHECK(c, !bad, "live-poisoned", "byte %zd of a reallocated allocation of %zu bytes may not be touched", (char*)bad - q, n);
        memset(q, ++tag, n);
        l.n = n;
        l.tag = tag;
        live[q] = l;
        break;
      }
      default:
        c.trace("release the %s below", bname);
        if (bk == 2 || bk == 3) base.release();
        break;
    }
    check("an operation");
  }
  while (!live.empty()) {
    char* p = live.begin()->first;
    live.erase(live.begin());
    rm.deallocate(p);
    check("a free");
  }
  if (frees > 2 && (returned || spy->calls_dealloc)) c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
  Settings s;
  return run_main(argc, argv, {{"poison", 1, 8, poison, "more than two frees, and the pool gave a block back to its parent"}}, s);
}
