// C19: threads. Built with ThreadSanitizer; the histories are drawn first and then run by several threads.
#include "world.hpp"

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/AllocationRecord.hpp"

using namespace pbt;
using world::Spy;
using umpire::Allocator;
namespace st = umpire::strategy;

namespace {

enum Kind { ALLOC, FREE, FREE_RM, QUERY, GIVE, TAKE, REALLOC, COPY, SET, ZERO, YIELD, NAMED, FAIL, MISUSE, NKIND };
struct Op {
  Kind k;
  std::size_t n;
  unsigned pick;
};
using Script = std::vector<Op>;

Script draw(Ctx& c, std::size_t max, std::size_t fixed, bool realloc, bool zero, bool give)
{
  Script s;
  c.reset_ops();
  while (c.more(max, 40)) {
    Op o;
    c.step();
    switch (c.weighted({10, 4, 4, 3, 2, 2, 2, 2, 2, 2, 1, 3, 1, 1})) {
      case 0: o.k = ALLOC; break;
      case 1: o.k = FREE; break;
      case 2: o.k = FREE_RM; break;
      case 3: o.k = QUERY; break;
      case 4: o.k = give ? GIVE : ALLOC; break;
      case 5: o.k = give ? TAKE : FREE; break;
      case 6: o.k = realloc ? REALLOC : ALLOC; break;
      case 7: o.k = COPY; break;
      case 8: o.k = SET; break;
      case 9: o.k = zero ? ZERO : FREE; break;
      case 11: o.k = NAMED; break;
      case 12: o.k = fixed ? NAMED : FAIL; break;
      case 13: o.k = MISUSE; break;
      default: o.k = YIELD; break;
    }
    o.n = fixed ? fixed : c.size(500);
    o.pick = (unsigned)c.below(1000);
    s.push_back(o);
  }
  return s;
}

struct Item {
  char* p;
  std::size_t n;
  unsigned char tag;
};

struct Exchange { // pointers handed from thread to thread
  std::mutex m;
  std::vector<Item> v;
};

struct Gate {
  std::mutex m;
  std::condition_variable cv;
  unsigned waiting{0}, want;
  explicit Gate(unsigned n) : want(n) {}
  void wait()
  {
    std::unique_lock<std::mutex> l(m);
    if (++waiting == want) cv.notify_all();
    else cv.wait(l, [&] { return waiting >= want; });
  }
};

struct Extent { // what all threads hold, to see overlaps
  std::mutex m;
  std::map<char*, std::size_t> v;
  std::size_t total{0}, most{0};
};

void put(Item& x)
{
  memset(x.p, x.tag, x.n);
}
void intact(Ctx& c, const Item& x)
{
  for (std::size_t i = 0; i < x.n; ++i)
    PCHECK(c, (unsigned char)x.p[i] == x.tag, "data", "byte %zu of a live allocation of %zu bytes changed while other threads were allocating", i, x.n);
}

void play(Ctx& c, const Script& s, Allocator a, Exchange& ex, Extent& all, unsigned tid, std::vector<Item>& mine, Allocator* wrong)
{
  auto& rm = umpire::ResourceManager::getInstance();
  unsigned char tag = (unsigned char)(tid * 60 + 1);
  auto enter = [&](Item& x) {
    if (!x.n) return;
    std::lock_guard<std::mutex> l(all.m);
    auto it = all.v.lower_bound(x.p);
    bool bad = it != all.v.end() && it->first < x.p + x.n;
    if (it != all.v.begin()) {
      --it;
      bad = bad || it->first + it->second > x.p;
    }
    PCHECK(c, !bad, "overlap", "two threads hold overlapping allocations");
    all.v[x.p] = x.n;
  };
  auto leave = [&](const Item& x) {
    if (!x.n) return;
    std::lock_guard<std::mutex> l(all.m);
    all.v.erase(x.p);
  };
  for (auto& o : s) {
    std::size_t k = mine.empty() ? 0 : o.pick % mine.size();
    switch (o.k) {
      case ALLOC:
      case NAMED:
      case ZERO: {
        Item x;
        x.n = o.k == ZERO ? 0 : o.n;
        x.tag = tag++;
        std::string nm;
        if (o.k == NAMED) {
          nm = "t" + std::to_string(tid) + "_" + std::to_string(o.pick);
          x.p = static_cast<char*>(a.allocate(nm, x.n));
        } else
          x.p = static_cast<char*>(a.allocate(x.n));
        PCHECK(c, x.p, "null", "allocate returned null");
        enter(x);
        if (o.k == NAMED) {
          auto* r = rm.findAllocationRecord(x.p);
          PCHECK(c, r->name == nm && r->ptr == x.p && r->size == x.n, "record", "the record of a named allocation is that of another one");
        }
        put(x);
        mine.push_back(x);
        break;
      }
      case FREE:
      case FREE_RM: {
        if (mine.empty()) break;
        Item x = mine[k];
        mine.erase(mine.begin() + k);
        intact(c, x);
        leave(x);
        if (o.k == FREE) a.deallocate(x.p);
        else rm.deallocate(x.p);
        break;
      }
      case QUERY: {
        if (mine.empty()) break;
        Item& x = mine[k];
        std::size_t off = x.n ? o.pick % x.n : 0;
        PCHECK(c, rm.hasAllocator(x.p + off), "lost", "a live allocation is unknown while other threads are allocating");
        std::size_t sz = rm.getSize(x.p);
        PCHECK(c, sz == x.n, "size", "getSize says %zu for an allocation of %zu bytes", sz, x.n);
        PCHECK(c, rm.getAllocator((void*)(x.p + off)).getId() == a.getId(), "owner", "a live allocation belongs to another allocator");
        break;
      }
      case GIVE: {
        if (mine.empty()) break;
        Item x = mine[k];
        mine.erase(mine.begin() + k);
        std::lock_guard<std::mutex> l(ex.m);
        ex.v.push_back(x);
        break;
      }
      case TAKE: {
        std::lock_guard<std::mutex> l(ex.m);
        if (ex.v.empty()) break;
        mine.push_back(ex.v.back());
        ex.v.pop_back();
        break;
      }
      case REALLOC: {
        if (mine.empty() || !mine[k].n) break;
        Item x = mine[k];
        mine.erase(mine.begin() + k);
        leave(x);
        char* q = static_cast<char*>(rm.reallocate(x.p, o.n));
        std::size_t keep = std::min(o.n, x.n);
        Item y{q, keep, x.tag};
        intact(c, y);
        y.n = o.n;
        enter(y);
        put(y);
        mine.push_back(y);
        break;
      }
      case COPY: {
        if (mine.size() < 2) break;
        Item& x = mine[k];
        Item& y = mine[(k + 1) % mine.size()];
        if (!x.n || !y.n || x.n > y.n) break;
        rm.copy(y.p, x.p, x.n);
        Item z{y.p, x.n, x.tag};
        intact(c, z);
        put(y);
        break;
      }
      case SET: {
        if (mine.empty() || !mine[k].n) break;
        mine[k].tag = tag++;
        rm.memset(mine[k].p, mine[k].tag, mine[k].n);
        intact(c, mine[k]);
        break;
      }
      case FAIL: {
        bool thrown = false;
        try {
          a.allocate((std::size_t{1} << 29) + o.n);
        } catch (std::exception&) {
          thrown = true;
        }
        PCHECK(c, thrown, "fail", "an allocation larger than the memory succeeded");
        break;
      }
      case MISUSE: {
        if (!wrong || mine.empty()) break;
        bool thrown = false;
        try {
          wrong->deallocate(mine[k].p);
        } catch (std::exception&) {
          thrown = true;
        }
        PCHECK(c, thrown, "misuse", "an allocation was freed through another allocator");
        break;
      }
      default: std::this_thread::yield(); break;
    }
  }
}

Allocator tree(Ctx& c, const std::string& u, Allocator leaf, std::size_t& fixed)
{
  auto& rm = umpire::ResourceManager::getInstance();
  fixed = 0;
  switch (c.below(8)) {
    case 0: return leaf;
    case 1: return rm.makeAllocator<st::QuickPool>("q" + u, leaf, c.size(4000), c.size(500));
    case 2: return rm.makeAllocator<st::DynamicPoolList>("l" + u, leaf, c.size(4000), c.size(500));
    case 3: fixed = 8 * c.range(1, 8); return rm.makeAllocator<st::FixedPool>("f" + u, leaf, fixed, c.range(1, 70));
    case 4: return rm.makeAllocator<st::MixedPool>("m" + u, leaf);
    case 5: return rm.makeAllocator<st::SizeLimiter>("s" + u, leaf, 1 << 24);
    case 6: return rm.makeAllocator<st::QuickPool>("q2" + u, rm.makeAllocator<st::DynamicPoolList>("l2" + u, leaf, 2000, 500), c.size(3000), c.size(500));
    default: return rm.makeAllocator<st::AlignedAllocator>("a" + u, leaf, 64);
  }
}

// several threads on one ThreadSafeAllocator; optionally a second ThreadSafeAllocator with threads of its own
void shared(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  rm.getAllocator("HOST"); // resources are made on first use
  static unsigned serial = 0;
  unsigned groups = 1 + (unsigned)c.below(2);
  struct Group {
    Allocator a;
    std::size_t fixed;
    Exchange ex;
    Extent all;
    std::vector<Script> s;
    std::vector<std::vector<Item>> mine;
  };
  std::vector<std::unique_ptr<Group>> g;
  unsigned nt = 0;
  for (unsigned i = 0; i < groups; ++i) {
    g.emplace_back(new Group);
    std::string u = std::to_string(serial++);
    Allocator leaf = rm.makeAllocator<Spy>("leaf" + u, (int)(c.below(2) * 8));
    Allocator under = tree(c, u, leaf, g[i]->fixed);
    g[i]->a = rm.makeAllocator<st::ThreadSafeAllocator>("ts" + u, under);
    unsigned t = (groups == 1 ? 2 : 1) + (unsigned)c.below(2);
    c.trace("ThreadSafeAllocator over %s with %u threads", under.getName().c_str(), t);
    bool zero = c.chance(1, 2);
    for (unsigned k = 0; k < t; ++k) g[i]->s.push_back(draw(c, 60, g[i]->fixed, !g[i]->fixed, zero, true));
    g[i]->mine.resize(t);
    nt += t;
  }
  Gate gate(nt);
  std::vector<std::thread> th;
  unsigned tid = 0;
  for (auto& x : g)
    for (std::size_t k = 0; k < x->s.size(); ++k, ++tid) {
      Group* gr = x.get();
      Group* other = g.size() > 1 ? g[gr == g[0].get()].get() : nullptr;
      th.emplace_back([&c, &gate, gr, other, k, tid] {
        gate.wait();
        play(c, gr->s[k], gr->a, gr->ex, gr->all, tid, gr->mine[k], other ? &other->a : nullptr);
      });
    }
  for (auto& t : th) t.join();
  std::size_t ops = 0;
  for (auto& x : g) {
    std::size_t live = 0, bytes = 0;
    for (auto& s : x->s) ops += s.size();
    x->mine.push_back(x->ex.v);
    for (auto& m : x->mine)
      for (auto& i : m) {
        ++live;
        bytes += i.n;
        intact(c, i);
      }
    PCHECK(c, x->a.getAllocationCount() == live && x->a.getCurrentSize() == bytes, "stats", "%zu allocations of %zu bytes are live; the allocator reports %zu of %zu", live,
           bytes, x->a.getAllocationCount(), x->a.getCurrentSize());
    PCHECK(c, x->a.getHighWatermark() >= bytes, "stats", "high watermark %zu with %zu bytes live", x->a.getHighWatermark(), bytes);
    for (auto& m : x->mine)
      for (auto& i : m) rm.deallocate(i.p);
    PCHECK(c, x->a.getAllocationCount() == 0 && x->a.getCurrentSize() == 0, "stats", "everything was freed; the allocator reports %zu of %zu bytes",
           x->a.getAllocationCount(), x->a.getCurrentSize());
  }
  if (ops > 20) c.nontrivial();
  if (groups > 1) c.label("two-thread-safe-allocators");
}

// every thread has allocators of its own; the records and the zero-byte pool are common
void separate(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  rm.getAllocator("HOST"); // resources are made on first use
  static unsigned serial = 0;
  unsigned nt = 2 + (unsigned)c.below(3);
  std::vector<Allocator> a(nt);
  std::vector<Script> s(nt);
  std::vector<std::size_t> fixed(nt);
  std::vector<std::vector<Item>> mine(nt);
  std::vector<std::unique_ptr<Exchange>> ex;
  std::vector<std::unique_ptr<Extent>> all;
  std::size_t ops = 0;
  for (unsigned i = 0; i < nt; ++i) {
    std::string u = "x" + std::to_string(serial++);
    a[i] = tree(c, u, rm.makeAllocator<Spy>("leaf" + u, 0), fixed[i]);
    s[i] = draw(c, 50, fixed[i], !fixed[i], c.chance(1, 2), false);
    ex.emplace_back(new Exchange);
    all.emplace_back(new Extent);
    ops += s[i].size();
  }
  c.trace("%u threads, each with its own allocator", nt);
  Gate gate(nt);
  std::vector<std::thread> th;
  for (unsigned i = 0; i < nt; ++i)
    th.emplace_back([&, i] {
      gate.wait();
      play(c, s[i], a[i], *ex[i], *all[i], i, mine[i], nullptr);
    });
  for (auto& t : th) t.join();
  for (unsigned i = 0; i < nt; ++i) {
    std::size_t bytes = 0;
    for (auto& x : mine[i]) {
      intact(c, x);
      bytes += x.n;
    }
    PCHECK(c, a[i].getAllocationCount() == mine[i].size() && a[i].getCurrentSize() == bytes, "stats", "%zu allocations of %zu bytes are live; the allocator reports %zu of %zu",
           mine[i].size(), bytes, a[i].getAllocationCount(), a[i].getCurrentSize());
    for (auto& x : mine[i]) rm.deallocate(x.p);
  }
  if (ops > 20) c.nontrivial();
}

// allocators are made by several threads at once
void making(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  static unsigned serial = 0;
  unsigned nt = 2 + (unsigned)c.below(3), each = 1 + (unsigned)c.below(5);
  std::string u = std::to_string(serial++);
  Allocator leaf = rm.makeAllocator<Spy>("mleaf" + u, 0);
  bool clash = c.chance(1, 3);
  std::vector<std::vector<unsigned>> kinds(nt);
  for (auto& k : kinds)
    for (unsigned i = 0; i < each; ++i) k.push_back((unsigned)c.below(3));
  c.trace("%u threads make %u allocators each%s", nt, each, clash ? ", one name is common" : "");
  Gate gate(nt);
  std::vector<std::vector<Allocator>> made(nt);
  std::atomic<unsigned> won{0};
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      gate.wait();
      for (unsigned i = 0; i < each; ++i) {
        std::string nm = "mk" + u + "_" + std::to_string(t) + "_" + std::to_string(i);
        switch (kinds[t][i]) {
          case 0: made[t].push_back(rm.makeAllocator<st::NamedAllocationStrategy>(nm, leaf)); break;
          case 1: made[t].push_back(rm.makeAllocator<st::ThreadSafeAllocator>(nm, leaf)); break;
          default: made[t].push_back(rm.makeAllocator<st::SizeLimiter>(nm, leaf, 1000)); break;
        }
      }
      if (clash) {
        try {
          rm.makeAllocator<st::NamedAllocationStrategy>("clash" + u, leaf);
          ++won;
        } catch (umpire::runtime_error&) {
        }
      }
    });
  for (auto& t : th) t.join();
  std::set<int> ids;
  for (unsigned t = 0; t < nt; ++t)
    for (unsigned i = 0; i < each; ++i) {
      std::string nm = "mk" + u + "_" + std::to_string(t) + "_" + std::to_string(i);
      PCHECK(c, made[t][i].getName() == nm, "name", "\"%s\" is called \"%s\"", nm.c_str(), made[t][i].getName().c_str());
      PCHECK(c, rm.isAllocator(nm) && rm.getAllocator(nm).getId() == made[t][i].getId(), "registry", "\"%s\" is not registered under its name", nm.c_str());
      PCHECK(c, rm.getAllocator(made[t][i].getId()).getName() == nm, "registry", "the id of \"%s\" finds \"%s\"", nm.c_str(), rm.getAllocator(made[t][i].getId()).getName().c_str());
      PCHECK(c, ids.insert(made[t][i].getId()).second, "id", "two allocators have the id %d", made[t][i].getId());
    }
  if (clash) PCHECK(c, won == 1, "clash", "%u threads made an allocator of the same name", won.load());
  c.nontrivial();
}

// AllocationMap itself: each thread owns its addresses, all share the map
void map_threads(Ctx& c)
{
  using umpire::util::AllocationMap;
  using umpire::util::AllocationRecord;
  AllocationMap m;
  unsigned nt = 2 + (unsigned)c.below(3);
  struct Step {
    int k;
    std::uintptr_t base;
    std::size_t n, off;
  };
  std::vector<std::vector<Step>> s(nt);
  unsigned slots = 2 + (unsigned)c.below(12);
  std::size_t ops = 0;
  for (unsigned t = 0; t < nt; ++t) {
    c.reset_ops();
    while (c.more(80, 60)) {
      c.step();
      std::uintptr_t base = 0x10000000ULL + (c.below(slots) * nt + t) * 4096;
      s[t].push_back({(int)c.below(5), base, c.range(1, 4000), c.below(4096)});
      ++ops;
    }
  }
  bool clears = c.chance(1, 4);
  c.trace("%u threads on one AllocationMap, %zu operations%s", nt, ops, clears ? ", the last thread also clears it" : "");
  Gate gate(nt);
  std::vector<std::thread> th;
  std::vector<std::size_t> left(nt, 0);
  for (unsigned t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      std::map<std::uintptr_t, std::vector<std::size_t>> model;
      gate.wait();
      for (auto& o : s[t]) {
        void* p = reinterpret_cast<void*>(o.base);
        auto it = model.find(o.base);
        if (clears) {
          // a record of this thread may be gone at any time, but it is never another one
          if (o.k == 4 && t + 1 == nt)
            m.clear();
          else if (o.k < 2) {
            m.insert(p, AllocationRecord{p, o.n, nullptr});
            model[o.base].push_back(o.n);
          } else if (o.k == 2) {
            try {
              AllocationRecord r = m.remove(p);
              bool mine = it != model.end() && r.ptr == p && std::count(it->second.begin(), it->second.end(), r.size);
              PCHECK(c, mine, "map-remove", "a record of %zu bytes was removed that this thread never put there", r.size);
              while (it->second.back() != r.size) it->second.pop_back();
              it->second.pop_back();
            } catch (umpire::runtime_error&) {
            }
          } else if (it == model.end())
            PCHECK(c, !m.contains(p), "map-contains", "the map contains an address that was never put there");
          else
            m.contains(p);
          continue;
        }
        switch (o.k) {
          case 0:
          case 1:
            m.insert(p, AllocationRecord{p, o.n, nullptr});
            model[o.base].push_back(o.n);
            break;
          case 2: {
            if (it == model.end()) {
              bool thrown = false;
              try {
                m.remove(p);
              } catch (umpire::runtime_error&) {
                thrown = true;
              }
              PCHECK(c, thrown, "map-remove", "removing an absent address succeeded");
              break;
            }
            AllocationRecord r = m.remove(p);
            PCHECK(c, r.size == it->second.back() && r.ptr == p, "map-remove", "the removed record has %zu bytes instead of %zu", r.size, it->second.back());
            it->second.pop_back();
            if (it->second.empty()) model.erase(it);
            break;
          }
          case 3: {
            bool in = it != model.end() && (o.off == 0 || o.off < it->second.back());
            if (it != model.end() && it->second.size() > 1) break; // several records of different sizes
            PCHECK(c, m.contains(static_cast<char*>(p) + o.off) == in, "map-contains", "contains is wrong for an address of this thread");
            break;
          }
          default: {
            if (it == model.end()) break;
            AllocationRecord* r = m.find(p);
            PCHECK(c, r && r->ptr == p && r->size == it->second.back(), "map-find", "find gives a wrong record");
            break;
          }
        }
      }
      for (auto& e : model) left[t] += e.second.size();
    });
  for (auto& t : th) t.join();
  std::size_t n = 0;
  for (auto x : left) n += x;
  if (clears) {
    std::size_t had = m.size(), got = 0;
    for (unsigned i = 0; i < slots * nt; ++i) {
      void* p = reinterpret_cast<void*>(0x10000000ULL + i * 4096);
      while (m.contains(p) && got <= n) m.remove(p), ++got;
    }
    PCHECK(c, got == had && m.size() == 0 && got <= n, "map-cleared", "the map said it has %zu records, %zu were found, %zu remain", had, got, m.size());
    c.label("cleared while in use");
    if (ops > 20) c.nontrivial();
    return;
  }
  PCHECK(c, m.size() == n, "map-size", "the map has %zu records instead of %zu", m.size(), n);
  if (ops > 20) c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
  Settings s;
  s.cpu_s = 60;
  return run_main(argc, argv,
                  {{"shared", 4, 4, shared, "more than 20 operations by threads"},
                   {"separate", 3, 4, separate, "more than 20 operations by threads"},
                   {"making", 1, 4, making, "every case"},
                   {"map", 2, 8, map_threads, "more than 20 operations by threads"}},
                  s);
}
