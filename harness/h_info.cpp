// C15 (registry of allocators: names, ids, aliases, default allocator) and
// C25 (introspection: records, printing, overlap/containment, accessibility, error details, fragmentation).
#include "pbt.hpp"

#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
#include <sys/mman.h>
#include <sstream>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/resource/MemoryResourceTypes.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/AllocationAdvisor.hpp"
#include "umpire/strategy/AllocationPrefetcher.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/allocation_statistics.hpp"
#include "umpire/util/error.hpp"

using namespace pbt;
using umpire::Allocator;
using umpire::strategy::AllocationStrategy;
namespace st = umpire::strategy;

namespace {

template <typename F>
int caught(F&& f) // 0 no exception, 1 umpire::runtime_error, 2 another std::exception
{
  try {
    f();
  } catch (umpire::runtime_error&) {
    return 1;
  } catch (std::exception&) {
    return 2;
  }
  return 0;
}

// --- C15 ---------------------------------------------------------------------------------------------------
struct Entry {
  std::string name;
  AllocationStrategy* s;
  AllocationStrategy* parent;
  int id;
  bool tracked;
  std::string strategy;
};

std::vector<std::string> make_names(Ctx& c)
{
  std::vector<std::string> v{"a", "b", "pool", "HOST", "FILE", "DEVICE", "UM", "nope", "", "host", "HOST ", "pool::0",
                             "HOST_x", "HOST::1", "Pool", std::string(300, 'n'), "tab\tname", "a b", std::string("nul\0x", 5)};
  while (v.size() < 24) v.push_back("n" + std::to_string(v.size()));
  return v;
}

struct Reg {
  Ctx& c;
  umpire::ResourceManager& rm;
  std::vector<Entry> all;                            // every allocator made, in order
  std::map<std::string, AllocationStrategy*> names;  // registered names and aliases
  std::map<AllocationStrategy*, std::size_t> index;
  std::set<std::string> resources{"HOST", "FILE", "SHARED"};
  std::vector<std::string> pool;
  AllocationStrategy* dflt{nullptr};

  explicit Reg(Ctx& ctx) : c(ctx), rm(umpire::ResourceManager::getInstance()), pool(make_names(ctx)) {}

  void learn(const std::string& name, Allocator a, AllocationStrategy* parent, bool tracked, const std::string& strat)
  {
    PCHECK(c, a.getAllocationStrategy() != nullptr, "null-handle", "making \"%s\" returned a null handle", name.c_str());
    PCHECK(c, !index.count(a.getAllocationStrategy()), "not-new", "making \"%s\" returned an allocator that already existed",
           name.c_str());
    PCHECK(c, a.getName() == name, "wrong-name", "the allocator made as \"%s\" is called \"%s\"", name.c_str(),
           a.getName().c_str());
    for (auto& e : all)
      PCHECK(c, e.id != a.getId(), "id-reused", "\"%s\" and \"%s\" both have id %d", e.name.c_str(), name.c_str(), e.id);
    PCHECK(c, a.getParent() == parent, "wrong-parent", "\"%s\" reports the wrong parent", name.c_str());
    PCHECK(c, a.isTracked() == tracked, "wrong-tracking", "\"%s\" was made with tracking %d but reports %d", name.c_str(),
           (int)tracked, (int)a.isTracked());
    if (!strat.empty())
      PCHECK(c, a.getStrategyName() == strat, "wrong-strategy", "\"%s\" made as %s reports strategy %s", name.c_str(),
             strat.c_str(), a.getStrategyName().c_str());
    index[a.getAllocationStrategy()] = all.size();
    all.push_back({name, a.getAllocationStrategy(), parent, a.getId(), tracked, a.getStrategyName()});
    names[name] = a.getAllocationStrategy();
  }

  void host() // the library makes HOST on first use
  {
    if (!names.count("HOST")) learn("HOST", rm.getAllocator("HOST"), nullptr, true, "");
  }
  Allocator some()
  {
    host();
    auto& e = all[c.below(all.size())];
    return rm.getAllocator(e.id);
  }

  void verify(bool full)
  {
    // ids
    std::vector<int> ids = rm.getAllocatorIds();
    std::set<int> seen(ids.begin(), ids.end());
    PCHECK(c, ids.size() == all.size() && seen.size() == all.size(), "ids-count",
           "%zu allocators were made; getAllocatorIds lists %zu (%zu distinct)", all.size(), ids.size(), seen.size());
    int top = 0;
    for (auto& e : all) {
      PCHECK(c, seen.count(e.id), "id-missing", "id %d of \"%s\" is not listed", e.id, e.name.c_str());
      top = std::max(top, e.id);
    }
    // names
    std::vector<std::string> nm = rm.getAllocatorNames();
    std::set<std::string> ns(nm.begin(), nm.end());
    PCHECK(c, nm.size() == names.size() && ns.size() == names.size(), "names-count",
           "%zu names and aliases are registered; getAllocatorNames lists %zu (%zu distinct)", names.size(), nm.size(),
           ns.size());
    for (auto& n : names) {
      PCHECK(c, ns.count(n.first), "name-missing", "\"%s\" is not listed", n.first.c_str());
      PCHECK(c, rm.isAllocator(n.first), "name-unknown", "isAllocator(\"%s\") is false", n.first.c_str());
      PCHECK(c, rm.getAllocator(n.first).getAllocationStrategy() == n.second, "name-lookup",
             "getAllocator(\"%s\") returns \"%s\" instead of \"%s\"", n.first.c_str(),
             rm.getAllocator(n.first).getName().c_str(), all[index[n.second]].name.c_str());
    }
    for (auto& e : all) {
      PCHECK(c, rm.isAllocator(e.id), "id-unknown", "isAllocator(%d) is false", e.id);
      Allocator a = rm.getAllocator(e.id);
      PCHECK(c, a.getAllocationStrategy() == e.s, "id-lookup", "getAllocator(%d) returns \"%s\" instead of \"%s\"", e.id,
             a.getName().c_str(), e.name.c_str());
      PCHECK(c, a.getName() == e.name && a.getId() == e.id && a.isTracked() == e.tracked && a.getParent() == e.parent &&
                    a.getStrategyName() == e.strategy,
             "handle-changed", "\"%s\" now reports name \"%s\" id %d", e.name.c_str(), a.getName().c_str(), a.getId());
    }
    if (!full) return;
    auto rn = rm.getResourceNames();
    for (auto& n : resources)
      PCHECK(c, n == "SHARED" || std::count(rn.begin(), rn.end(), n) == 1, "resource-names", "getResourceNames lists \"%s\" %d times", n.c_str(), (int)std::count(rn.begin(), rn.end(), n));
    for (auto& n : rn) PCHECK(c, rm.isAllocator(n), "resource-names", "getResourceNames lists \"%s\", which is no allocator", n.c_str());
    for (auto& e : all) {
      std::ostringstream os;
      os << rm.getAllocator(e.id);
      PCHECK(c, os.str().find(e.name) != std::string::npos && os.str().find(std::to_string(e.id)) != std::string::npos, "printed", "\"%s\" prints as %s", e.name.c_str(), os.str().c_str());
    }
    for (auto& n : pool)
      if (!names.count(n)) {
        bool want = resources.count(n) != 0;
        PCHECK(c, rm.isAllocator(n) == want, "name-phantom", "isAllocator(\"%s\") is %d, expected %d", n.c_str(), !want, want);
        if (!want)
          PCHECK(c, caught([&] { rm.getAllocator(n); }) == 1, "name-phantom-get", "getAllocator(\"%s\") did not throw",
                 n.c_str());
      }
    for (int id : {-1, -2, top + 1, top + 2, (int)umpire::invalid_allocator_id, 0x7fffffff, (int)0x80000000})
      if (!seen.count(id)) {
        PCHECK(c, !rm.isAllocator(id), "id-phantom", "isAllocator(%d) is true", id);
        PCHECK(c, caught([&] { rm.getAllocator(id); }) == 1, "id-phantom-get", "getAllocator(%d) did not throw", id);
      }
    for (int id = 0; id <= top; ++id)
      PCHECK(c, rm.isAllocator(id) == (seen.count(id) != 0), "id-phantom", "isAllocator(%d) is %d", id, rm.isAllocator(id));
    if (dflt)
      PCHECK(c, rm.getDefaultAllocator().getAllocationStrategy() == dflt, "default-changed",
             "the default allocator is \"%s\" instead of \"%s\"", rm.getDefaultAllocator().getName().c_str(),
             all[index[dflt]].name.c_str());
  }
};

void registry(Ctx& c)
{
  Reg r(c);
  auto& rm = r.rm;
  std::vector<std::pair<void*, AllocationStrategy*>> live;
  unsigned made = 0, aliased = 0, rejected = 0, unaliased = 0;
  if (c.chance(1, 2)) {
    setenv("UMPIRE_MEMORY_FILE_DIR", (c.scratch() + "/").c_str(), 1);
  }
  while (c.more(60)) {
    c.step();
    std::string name = c.pick(r.pool);
    switch (c.weighted({8, 3, 6, 6, 5, 4, 4, 3, 3, 3})) {
      case 0: { // make an allocator
        Allocator parent = r.some();
        for (AllocationStrategy* q = parent.getAllocationStrategy(); q; q = q->getParent())
          if (q->getStrategyName() == "FixedPool") { // serves one size only
            parent = rm.getAllocator("HOST");
            break;
          }
        unsigned k = c.below(11);
        bool tracked = c.chance(3, 4);
        bool bad = c.chance(1, 6); // parameters that are refused
        bool exists = r.names.count(name) || r.resources.count(name);
        auto t = tracked ? umpire::Tracking::Tracked : umpire::Tracking::Untracked;
        c.trace("make \"%s\" kind %u tracked %d bad %d over \"%s\"", name.c_str(), k, (int)tracked, (int)bad,
                parent.getName().c_str());
        Allocator a;
        const char* strat = "";
        bool badp = bad && k == 2;
        // a parent that cannot serve the block some strategies take when they are made is a refusal too
        int ex = caught([&] {
          switch (k) {
            case 0: strat = "QuickPool"; a = rm.makeAllocator<st::QuickPool>(name, t, parent, 512, 64, bad ? 32 : 16); break;
            case 1: strat = "DynamicPoolList"; a = rm.makeAllocator<st::DynamicPoolList>(name, t, parent, 512, 64, bad ? 32 : 16); break;
            case 2: strat = "AlignedAllocator"; a = rm.makeAllocator<st::AlignedAllocator>(name, t, parent, bad ? 48 : 64); break;
            case 3: strat = "NamedAllocationStrategy"; a = rm.makeAllocator<st::NamedAllocationStrategy>(name, t, parent); break;
            case 4: strat = "SizeLimiter"; a = rm.makeAllocator<st::SizeLimiter>(name, t, parent, 100000); break;
            case 5: strat = "ThreadSafeAllocator"; a = rm.makeAllocator<st::ThreadSafeAllocator>(name, t, parent); break;
            case 6: strat = "SlotPool"; a = rm.makeAllocator<st::SlotPool>(name, t, parent, 4); break;
            case 7: strat = "NamingShim"; a = rm.makeAllocator<st::NamingShim>(name, t, parent); break;
            case 8: strat = "FixedPool"; a = rm.makeAllocator<st::FixedPool>(name, t, rm.getAllocator("HOST"), 32); parent = rm.getAllocator("HOST"); break;
            case 9: strat = "MixedPool"; a = rm.makeAllocator<st::MixedPool>(name, t, rm.getAllocator("HOST")); parent = rm.getAllocator("HOST"); break;
            default: strat = "MonotonicAllocationStrategy"; a = rm.makeAllocator<st::MonotonicAllocationStrategy>(name, t, rm.getAllocator("HOST"), 4096); parent = rm.getAllocator("HOST"); break;
          }
        });
        if (exists) {
          PCHECK(c, ex == 1, "duplicate-made", "making \"%s\" again %s", name.c_str(),
                 ex ? "threw something other than umpire::runtime_error" : "did not throw");
          ++rejected;
        } else if (badp) {
          PCHECK(c, ex == 1, "bad-parameters", "making \"%s\" with refused parameters %s", name.c_str(),
                 ex ? "threw something other than umpire::runtime_error" : "did not throw");
          ++rejected;
        } else if (ex) {
          // some parents (slots used up, limits) cannot serve the first block
          c.label("parent-refused");
          PCHECK(c, ex == 1, "make-exception", "making \"%s\" threw something other than umpire::runtime_error", name.c_str());
          PCHECK(c, k >= 3 || parent.getStrategyName() != "", "make-refused", "making \"%s\" was refused", name.c_str());
          AllocationStrategy* root = parent.getAllocationStrategy();
          while (root->getParent()) root = root->getParent();
          bool file = root->getName() == "FILE"; // the aligned allocator needs host memory
          PCHECK(c, k < 2 || k == 6 || (k == 2 && file), "make-refused", "making \"%s\" (kind %u) was refused", name.c_str(), k);
        } else {
          r.learn(name, a, parent.getAllocationStrategy(), tracked, strat);
          ++made;
        }
        break;
      }
      case 1: { // resources
        if (c.chance(1, 2)) name = c.pick(std::vector<std::string>{"HOST", "FILE", "HOST_x", "DEVICE", "HOST::1", "xHOST", "HOST::0", "nope"});
        bool valid = name == "HOST" || name == "FILE" || name == "HOST::1" || name == "HOST::0";
        bool have = r.names.count(name) != 0;
        c.trace("makeResource \"%s\"", name.c_str());
        bool tr = true;
        Allocator a;
        int ex = caught([&] {
          if (c.chance(1, 2)) {
            umpire::MemoryResourceTraits t = umpire::get_default_resource_traits(name);
            tr = t.tracking = c.chance(2, 3);
            a = rm.makeResource(name, t);
          } else
            a = rm.makeResource(name);
        });
        if (have || !valid) {
          PCHECK(c, ex == 1, "resource-made", "makeResource(\"%s\") did not throw umpire::runtime_error", name.c_str());
          ++rejected;
        } else {
          PCHECK(c, ex == 0, "resource-refused", "makeResource(\"%s\") threw", name.c_str());
          r.learn(name, a, nullptr, tr, "");
          if (name == "HOST::0") { // also becomes the plain resource unless that exists
            if (!r.names.count("HOST")) r.names["HOST"] = a.getAllocationStrategy();
          }
          ++made;
        }
        break;
      }
      case 2: { // add an alias
        Allocator a = r.some();
        bool exists = r.names.count(name) || r.resources.count(name);
        c.trace("addAlias \"%s\" -> \"%s\"", name.c_str(), a.getName().c_str());
        int ex = caught([&] { rm.addAlias(name, a); });
        if (exists) {
          PCHECK(c, ex == 1, "alias-clobbers", "addAlias(\"%s\") over an existing name did not throw umpire::runtime_error", name.c_str());
          // the refusal may instantiate a resource of that name
          if (!r.names.count(name) && r.resources.count(name)) {
            auto nm = rm.getAllocatorNames();
            if (std::find(nm.begin(), nm.end(), name) != nm.end()) r.learn(name, rm.getAllocator(name), nullptr, true, "");
          }
          ++rejected;
        } else {
          PCHECK(c, ex == 0, "alias-refused", "addAlias(\"%s\") of a free name threw", name.c_str());
          r.names[name] = a.getAllocationStrategy();
          ++aliased;
        }
        break;
      }
      case 3: { // remove an alias
        Allocator a = r.some();
        std::vector<std::string> al;
        for (auto& n : r.names)
          if (r.all[r.index[n.second]].name != n.first) al.push_back(n.first);
        if (!al.empty() && c.chance(3, 4)) {
          name = al[c.below(al.size())];
          if (c.chance(3, 4)) a = rm.getAllocator(name);
        }
        auto it = r.names.find(name);
        bool ok = it != r.names.end() && r.all[r.index[it->second]].name != name && it->second == a.getAllocationStrategy();
        c.trace("removeAlias \"%s\" of \"%s\"", name.c_str(), a.getName().c_str());
        int ex = caught([&] { rm.removeAlias(name, a); });
        if (ok) {
          PCHECK(c, ex == 0, "unalias-refused", "removeAlias(\"%s\") of an alias threw", name.c_str());
          r.names.erase(name);
          ++unaliased;
        } else {
          PCHECK(c, ex == 1, "unalias-accepted", "removeAlias(\"%s\", \"%s\") did not throw umpire::runtime_error", name.c_str(), a.getName().c_str());
          ++rejected;
        }
        break;
      }
      case 4: { // default allocator
        Allocator a = r.some();
        if (!r.dflt || c.chance(1, 3)) {
          if (!r.dflt) {
            Allocator d = rm.getDefaultAllocator();
            PCHECK(c, d.getAllocationStrategy() == r.names["HOST"], "default-first", "the first default allocator is \"%s\"", d.getName().c_str());
            r.dflt = d.getAllocationStrategy();
          }
        }
        if (c.chance(3, 4)) {
          c.trace("setDefaultAllocator \"%s\"", a.getName().c_str());
          rm.setDefaultAllocator(a);
          r.dflt = a.getAllocationStrategy();
        }
        break;
      }
      case 5: { // lookup by name, also instantiates resources
        if (name == "SHARED") break;
        bool known = r.names.count(name), res = r.resources.count(name);
        c.trace("getAllocator \"%s\"", name.c_str());
        Allocator a;
        int ex = caught([&] { a = c.chance(1, 2) && name.find('\0') == std::string::npos ? rm.getAllocator(name.c_str()) : rm.getAllocator(name); });
        if (known) {
          PCHECK(c, ex == 0 && a.getAllocationStrategy() == r.names[name], "name-lookup", "getAllocator(\"%s\") is wrong", name.c_str());
        } else if (res) {
          PCHECK(c, ex == 0, "resource-get", "getAllocator(\"%s\") threw", name.c_str());
          r.learn(name, a, nullptr, true, "");
        } else
          PCHECK(c, ex == 1, "name-phantom-get", "getAllocator(\"%s\") did not throw umpire::runtime_error", name.c_str());
        break;
      }
      case 6: { // allocate: the pointer leads back to its allocator
        Allocator a = r.some();
        std::size_t n = c.chance(1, 8) ? 0 : (a.getStrategyName() == "FixedPool" ? 32 : c.range(1, 64));
        void* p = nullptr;
        c.trace("allocate %zu from \"%s\"", n, a.getName().c_str());
        if (caught([&] { p = a.allocate(n); })) break;
        if (a.isTracked()) {
          PCHECK(c, rm.hasAllocator(p), "ptr-unknown", "hasAllocator is false for a live pointer of \"%s\"", a.getName().c_str());
          PCHECK(c, rm.getAllocator(p).getAllocationStrategy() == a.getAllocationStrategy(), "ptr-lookup",
                 "a pointer of \"%s\" is attributed to \"%s\"", a.getName().c_str(), rm.getAllocator(p).getName().c_str());
          live.push_back({p, a.getAllocationStrategy()});
        }
        break;
      }
      case 7: { // free by pointer alone
        if (live.empty()) break;
        std::size_t i = c.below(live.size());
        c.trace("deallocate one of \"%s\"", r.all[r.index[live[i].second]].name.c_str());
        umpire::free(live[i].first);
        PCHECK(c, !rm.hasAllocator(live[i].first), "ptr-stays", "a freed pointer still has an allocator");
        live.erase(live.begin() + i);
        break;
      }
      case 8: { // default allocation
        if (!r.dflt) break;
        auto& e = r.all[r.index[r.dflt]];
        void* p = nullptr;
        c.trace("umpire::malloc from default \"%s\"", e.name.c_str());
        if (caught([&] { p = umpire::malloc(32); })) break;
        if (e.tracked) {
          PCHECK(c, rm.getAllocator(p).getAllocationStrategy() == r.dflt, "default-unused", "umpire::malloc used \"%s\" instead of the default \"%s\"",
                 rm.getAllocator(p).getName().c_str(), e.name.c_str());
          live.push_back({p, r.dflt});
        }
        break;
      }
      default: { // by resource type
        auto t = c.pick(std::vector<umpire::resource::MemoryResourceType>{umpire::resource::Host, umpire::resource::File, umpire::resource::Device,
                                                                       umpire::resource::Unified, umpire::resource::Unknown});
        bool host = t == umpire::resource::Host, file = t == umpire::resource::File;
        std::string nm = host ? "HOST" : file ? "FILE" : "";
        c.trace("getAllocator(type %d)", (int)t);
        Allocator a;
        int ex = caught([&] { a = rm.getAllocator(t); });
        if (!host && !file) {
          std::string as = t == umpire::resource::Device ? "DEVICE" : t == umpire::resource::Unified ? "UM" : "";
          if (!as.empty() && r.names.count(as))
            PCHECK(c, ex == 0, "type-lookup", "lookup by type failed although \"%s\" is registered", as.c_str());
          else
            PCHECK(c, ex == 1, "type-phantom", "getAllocator(type %d) did not throw umpire::runtime_error", (int)t);
        } else {
          PCHECK(c, ex == 0, "type-refused", "getAllocator(type %d) threw", (int)t);
          if (!r.names.count(nm)) r.learn(nm, a, nullptr, true, "");
          PCHECK(c, a.getAllocationStrategy() == r.names[nm], "type-lookup", "getAllocator(type %d) returns \"%s\"", (int)t, a.getName().c_str());
        }
        break;
      }
    }
    r.verify(false);
  }
  r.verify(true);
  for (auto& l : live) umpire::free(l.first);
  r.verify(true);
  if (made > 1) c.label("made");
  if (aliased) c.label("aliased");
  if (unaliased) c.label("unaliased");
  if (rejected) c.label("rejected");
  if (made > 1 && aliased && rejected) c.nontrivial();
}

// Thousands of allocators and aliases at once
void many(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  Allocator host = rm.getAllocator("HOST");
  std::size_t before = rm.getAllocatorIds().size(), names_before = rm.getAllocatorNames().size();
  std::size_t n = c.chance(1, 6) ? 66000 + c.below(3000) : 200 + c.below(3000);
  std::size_t aliases = c.below(n / 2), len = c.chance(1, 4) ? 600 : 1;
  c.trace("%zu allocators and %zu aliases, names of %zu characters", n, aliases, len);
  std::string base(n > 5000 ? 1 : len, 'm');
  std::vector<AllocationStrategy*> made;
  std::set<int> ids;
  ids.insert(host.getId());
  for (std::size_t i = 0; i < n; ++i) {
    std::string nm = base + std::to_string(i);
    Allocator a = i % 3 ? rm.makeAllocator<st::NamedAllocationStrategy>(nm, host) : rm.makeAllocator<st::SizeLimiter>(nm, host, 1000 + i);
    PCHECK(c, a.getName() == nm, "wrong-name", "allocator %zu has another name", i);
    PCHECK(c, ids.insert(a.getId()).second, "id-reused", "allocator %zu has the id %d of an earlier one", i, a.getId());
    made.push_back(a.getAllocationStrategy());
  }
  for (std::size_t i = 0; i < aliases; ++i) rm.addAlias("alias" + std::to_string(i), rm.getAllocator(base + std::to_string(n - 1 - i)));
  for (std::size_t i = 0; i < aliases; i += 3) rm.removeAlias("alias" + std::to_string(i), rm.getAllocator(base + std::to_string(n - 1 - i)));
  for (std::size_t i = 0; i < n; ++i) {
    Allocator a = rm.getAllocator(base + std::to_string(i));
    PCHECK(c, a.getAllocationStrategy() == made[i], "name-lookup", "the name of allocator %zu finds another one", i);
    PCHECK(c, rm.getAllocator(a.getId()).getAllocationStrategy() == made[i], "id-lookup", "the id of allocator %zu finds another one", i);
  }
  for (std::size_t i = 0; i < aliases; ++i) {
    std::string nm = "alias" + std::to_string(i);
    PCHECK(c, rm.isAllocator(nm) == (i % 3 != 0), "alias", "alias %zu is %sthere", i, i % 3 ? "not " : "");
    if (i % 3) PCHECK(c, rm.getAllocator(nm).getAllocationStrategy() == made[n - 1 - i], "alias", "alias %zu finds another allocator", i);
  }
  PCHECK(c, rm.getAllocatorIds().size() == before + n, "ids-count", "%zu ids are listed instead of %zu", rm.getAllocatorIds().size(), before + n);
  std::size_t want = names_before + n + aliases - (aliases + 2) / 3;
  PCHECK(c, rm.getAllocatorNames().size() == want, "names-count", "%zu names are listed instead of %zu", rm.getAllocatorNames().size(), want);
  PCHECK(c, caught([&] { rm.makeAllocator<st::NamedAllocationStrategy>(base + std::to_string(c.below(n)), host); }) == 1, "duplicate-made", "a name of %zu was made again", n);
  std::size_t x = c.below(n);
  void* p = rm.getAllocator(base + std::to_string(x)).allocate(100);
  PCHECK(c, rm.getAllocator(p).getAllocationStrategy() == made[x], "ptr-lookup", "a pointer of allocator %zu is attributed to another one", x);
  umpire::free(p);
  c.nontrivial();
}

// resource names and types are inverse to each other
void resource_names(Ctx& c)
{
  using namespace umpire::resource;
  for (int t = Host; t < Unknown; ++t) {
    std::string s = resource_to_string(static_cast<MemoryResourceType>(t));
    PCHECK(c, string_to_resource(s) == t, "resource-name", "type %d is called \"%s\", which is type %d", t, s.c_str(), (int)string_to_resource(s));
  }
  while (c.more(30)) {
    c.step();
    std::string s;
    if (c.chance(1, 2)) {
      s = c.pick(std::vector<std::string>{"HOST", "DEVICE", "UM", "PINNED", "DEVICE_CONST", "FILE", "NO_OP", "SHARED"});
      if (c.chance(1, 2)) s += "::" + std::to_string(c.below(2000));
      else if (c.chance(1, 2)) s.insert(c.below(s.size() + 1), 1, "xE_:0"[c.below(5)]);
    } else
      for (unsigned n = c.below(8); n--;) s.push_back("HOSTDEVICUM:0F"[c.below(14)]);
    bool known = false;
    for (int t = Host; t < Unknown; ++t)
      if (s == resource_to_string(static_cast<MemoryResourceType>(t))) known = true;
    int ex = caught([&] { string_to_resource(s); });
    c.trace("\"%s\"", s.c_str());
    PCHECK(c, ex == (known ? 0 : 1), "resource-string", "string_to_resource(\"%s\") %s", s.c_str(), ex ? "threw" : "was accepted");
    // device id: the digits after the last "::" when the name ends in "::digits"
    std::size_t e = s.size();
    while (e > 0 && isdigit((unsigned char)s[e - 1])) --e;
    int want = 0;
    if (e < s.size() && e >= 2 && s.compare(e - 2, 2, "::") == 0) {
      want = atoi(s.c_str() + e);
      c.nontrivial();
    }
    PCHECK(c, resource_to_device_id(s) == want, "device-id", "resource_to_device_id(\"%s\") is %d, expected %d", s.c_str(), resource_to_device_id(s), want);
  }
}

// --- C25 ---------------------------------------------------------------------------------------------------
struct Rec {
  char* p;
  std::size_t n;
  AllocationStrategy* s;
  std::string name;
  bool external;
};

void introspect(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  std::vector<Allocator> al{rm.getAllocator("HOST")};
  std::vector<std::string> roots{"HOST"};
  unsigned n = c.below(5);
  for (unsigned i = 0; i < n; ++i) {
    Allocator parent = al[c.below(al.size())];
    std::string nm = "al" + std::to_string(i);
    switch (c.below(6)) {
      case 0: al.push_back(rm.makeAllocator<st::QuickPool>(nm, parent, 1024, 256)); break;
      case 1: al.push_back(rm.makeAllocator<st::DynamicPoolList>(nm, parent, 1024, 256)); break;
      case 2: al.push_back(rm.makeAllocator<st::NamedAllocationStrategy>(nm, parent)); break;
      case 3: al.push_back(rm.makeAllocator<st::SizeLimiter>(nm, parent, 5000)); break;
      case 4: al.push_back(rm.makeAllocator<st::ThreadSafeAllocator>(nm, parent)); break;
      default: al.push_back(rm.makeAllocator<st::AlignedAllocator>(nm, parent, 64)); break;
    }
  }
  std::vector<Rec> recs; // live records
  static char arena[1 << 16];
  unsigned ext = 0, overlapping = 0, freed = 0;

  auto known = [&](char* p) -> const Rec* {
    const Rec* best = nullptr;
    for (auto& r : recs)
      if (r.p == p) return &r;
    return best;
  };
  auto check_records = [&] {
    for (auto& a : al) {
      std::multiset<std::string> want, got, leaked;
      auto key = [](void* p, std::size_t n, const std::string& nm) { return std::to_string((std::size_t)p) + "/" + std::to_string(n) + "/" + nm; };
      for (auto& r : recs)
        if (r.s == a.getAllocationStrategy()) want.insert(key(r.p, r.n, r.name));
      for (auto& r : umpire::get_allocator_records(a)) got.insert(key(r.ptr, r.size, r.name));
      for (auto& r : umpire::get_leaked_allocations(a)) leaked.insert(key(r.ptr, r.size, r.name));
      PCHECK(c, got == want, "records", "get_allocator_records(\"%s\") lists %zu records, %zu are live (or they differ)", a.getName().c_str(), got.size(), want.size());
      PCHECK(c, leaked == want, "leaked", "get_leaked_allocations(\"%s\") lists %zu records, %zu are live (or they differ)", a.getName().c_str(), leaked.size(), want.size());
      std::ostringstream os;
      umpire::print_allocator_records(a, os);
      std::string text = os.str();
      PCHECK(c, want.empty() == text.empty(), "print-empty", "print_allocator_records(\"%s\") wrote %zu characters for %zu records", a.getName().c_str(), text.size(), want.size());
      std::size_t lines = 0;
      for (std::size_t at = 0; (at = text.find("size: ", at)) != std::string::npos; ++at) ++lines;
      std::size_t in_names = 0;
      PCHECK(c, lines - in_names == want.size(), "print-count", "print_allocator_records(\"%s\") prints %zu records, %zu are live", a.getName().c_str(), lines, want.size());
      if (!want.empty())
        PCHECK(c, text.find("Allocations for " + a.getName() + " allocator:") == 0, "print-head", "heading: %s", text.substr(0, 60).c_str());
      std::vector<std::string> rows;
      std::istringstream is(text);
      for (std::string row; std::getline(is, row);) rows.push_back(row);
      std::sort(rows.begin(), rows.end());
      for (auto& r : recs)
        if (r.s == a.getAllocationStrategy()) {
          std::ostringstream one;
          one << "  size: " << r.n << ", range: " << (void*)r.p << " -- " << (void*)(r.p + r.n) << ", name: " << r.name << ", ";
          auto row = std::lower_bound(rows.begin(), rows.end(), one.str());
          PCHECK(c, row != rows.end() && row->compare(0, one.str().size(), one.str()) == 0, "print-record", "no line \"%s\" in\n%s", one.str().c_str(),
                 text.substr(0, 2000).c_str());
        }
    }
  };

  if (c.chance(1, 40)) { // very many records
    Allocator a = al[c.below(al.size())];
    unsigned m = (unsigned)c.range(300, 3000);
    c.trace("allocate %u times from %s", m, a.getName().c_str());
    for (unsigned k = 0; k < m; ++k) {
      std::string nm = k % 5 ? "" : k % 7 ? "n" + std::to_string(k) : std::string(k, 'w');
      void* p = nullptr;
      if (caught([&] { p = nm.empty() ? a.allocate(k % 31) : a.allocate(nm, k % 31); })) break;
      recs.push_back({(char*)p, k % 31, a.getAllocationStrategy(), nm, false});
    }
    check_records();
    while (recs.size() > 40) {
      rm.deallocate(recs.back().p);
      recs.pop_back();
    }
    check_records();
    c.label("very many records");
  }
  static char* field = static_cast<char*>(mmap(nullptr, std::size_t{1} << 36, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  bool vast = field != MAP_FAILED && c.chance(1, 5);
  while (c.more(50)) {
    c.step();
    switch (c.weighted({5, 4, 8, 9, 2, 2, 2, 2})) {
      case 0: {
        Allocator a = al[c.below(al.size())];
        std::size_t sz = c.chance(1, 10) ? 0 : c.chance(1, 12) ? 6000 + c.below(1000) : c.size(700);
        std::string nm = c.chance(1, 3) ? c.pick(std::vector<std::string>{"x", "temperature", "a b", ""}) : "";
        c.trace("allocate %zu \"%s\" from %s", sz, nm.c_str(), a.getName().c_str());
        void* p = nullptr;
        try {
          if (nm.empty()) p = a.allocate(sz);
          else p = a.allocate(nm, sz);
        } catch (umpire::out_of_memory_error& e) {
          c.label("out-of-memory");
          PCHECK(c, e.requested_size() == sz, "oom-size", "the error says %zu bytes were requested, %zu were", e.requested_size(), sz);
          PCHECK(c, e.get_allocator_id() == a.getId(), "oom-id", "the error names allocator %d, the request went to %d", e.get_allocator_id(), a.getId());
          break;
        }
        recs.push_back({(char*)p, sz, a.getAllocationStrategy(), nm, false});
        break;
      }
      case 1: {
        if (recs.empty()) break;
        std::size_t i = c.below(recs.size());
        Rec r = recs[i];
        // a record stacked above this one at the same base goes first
        for (std::size_t k = i + 1; k < recs.size(); ++k)
          if (recs[k].p == r.p) { i = k; r = recs[k]; }
        c.trace("remove %p", r.p);
        if (r.external) {
          auto back = umpire::deregister_external_allocation(r.p);
          PCHECK(c, back.ptr == r.p && back.size == r.n && back.strategy == r.s && back.name == r.name, "deregister", "deregistering returned another record");
        } else
          rm.deallocate(r.p);
        recs.erase(recs.begin() + i);
        ++freed;
        break;
      }
      case 2: { // memory of the application's own, made known to the library
        std::size_t at = c.below(16) * 64 + c.below(3), len = c.chance(1, 12) ? 0 : c.chance(1, 2) ? c.below(6) * 64 : c.size(600);
        char* p = arena + at;
        if (vast && c.chance(2, 3)) { // far more than 32 bits can address
          at = ((std::size_t)c.below(10) << 30) + c.below(3), len = ((std::size_t)c.below(10) << 30) + c.below(3);
          p = field + at;
        }
        if (known(p)) break;
        Allocator a = al[c.below(al.size())];
        std::string nm = c.chance(1, 3) ? "ext" : "";
        c.trace("register external [%zu,+%zu) for %s", at, len, a.getName().c_str());
        umpire::register_external_allocation(p, umpire::util::AllocationRecord(p, len, a.getAllocationStrategy(), nm));
        recs.push_back({p, len, a.getAllocationStrategy(), nm, true});
        ++ext;
        PCHECK(c, rm.hasAllocator(p) && rm.getSize(p) == len && rm.getAllocator((void*)p).getAllocationStrategy() == a.getAllocationStrategy(), "external-lookup",
               "a registered external allocation is not found with its size and allocator");
        break;
      }
      case 3: { // overlap and containment
        if (recs.size() < 2) break;
        std::size_t li = c.below(recs.size()), ri = c.below(recs.size());
        if (c.chance(3, 4)) { // neighbours in memory are the interesting pairs
          std::vector<std::size_t> near;
          for (std::size_t k = 0; k < recs.size(); ++k)
            if (k != li && recs[k].p >= recs[li].p && recs[k].p <= recs[li].p + recs[li].n) near.push_back(k);
          if (!near.empty()) ri = near[c.below(near.size())];
          if (c.chance(1, 4)) std::swap(li, ri);
        }
        Rec &l = recs[li], &r = recs[ri];
        std::uintptr_t L = (std::uintptr_t)l.p, LE = L + l.n, R = (std::uintptr_t)r.p, RE = R + r.n;
        bool contains = R >= L && R < LE && RE <= LE;
        bool overlaps = R >= L && R < LE && RE > LE;
        if (overlaps || (contains && &l != &r)) { ++overlapping; c.label(overlaps ? "overlaps" : "contains"); }
        c.trace("overlap/contain [%p,+%zu) [%p,+%zu)", l.p, l.n, r.p, r.n);
        PCHECK(c, umpire::pointer_contains(l.p, r.p) == contains, "contains", "pointer_contains is %d for [%p,+%zu) and [%p,+%zu)", !contains, l.p, l.n, r.p, r.n);
        PCHECK(c, umpire::pointer_overlaps(l.p, r.p) == overlaps, "overlaps", "pointer_overlaps is %d for [%p,+%zu) and [%p,+%zu)", !overlaps, l.p, l.n, r.p, r.n);
        break;
      }
      case 4: { // unknown pointers, and a deallocation that is refused
        if (!recs.empty()) {
          Rec r = recs[c.below(recs.size())];
          for (auto& o : recs)
            if (o.p == r.p) r = o; // the record on top
          Allocator a = al[c.below(al.size())];
          if (a.getAllocationStrategy() != r.s) {
            c.trace("deallocate %p through %s, which does not own it", r.p, a.getName().c_str());
            if (caught([&] { a.deallocate(r.p); }) != 1) return; // C11 decides that
            c.label("refused-deallocation");
          }
        }
        char* far = arena + (1 << 15) + c.below(1000);
        char* q = nullptr;
        if (!recs.empty()) q = recs[c.below(recs.size())].p;
        c.trace("unknown pointer");
        for (int side = 0; side < 2; ++side) {
          char *a = side ? far : (q ? q : far), *b = side ? (q ? q : far) : far;
          PCHECK(c, caught([&] { umpire::pointer_contains(a, b); }) == 1, "unknown-contains", "pointer_contains accepted an unknown pointer");
          PCHECK(c, caught([&] { umpire::pointer_overlaps(a, b); }) == 1, "unknown-overlaps", "pointer_overlaps accepted an unknown pointer");
        }
        bool ok = false;
        try {
          rm.getSize(far);
        } catch (umpire::unknown_pointer_error& e) {
          ok = true;
          PCHECK(c, e.get_pointer() == far, "error-pointer", "the unknown pointer error names %p, the call was about %p", e.get_pointer(), (void*)far);
        }
        PCHECK(c, ok, "unknown-size", "getSize of an unknown pointer did not throw unknown_pointer_error");
        PCHECK(c, caught([&] { umpire::deregister_external_allocation(far); }) == 1, "unknown-deregister", "an unknown external allocation was deregistered");
        break;
      }
      case 5: { // accessibility
        Allocator a = al[c.below(al.size())];
        c.trace("accessibility of %s", a.getName().c_str());
        PCHECK(c, umpire::is_accessible(umpire::Platform::host, a), "inaccessible", "\"%s\" over HOST is not accessible from the host", a.getName().c_str());
        PCHECK(c, a.getPlatform() == umpire::Platform::host, "platform", "\"%s\" over HOST is not on the host platform", a.getName().c_str());
        PCHECK(c, !umpire::is_accessible(umpire::Platform::undefined, a), "accessible-undefined", "\"%s\" is accessible from no platform", a.getName().c_str());
        break;
      }
      case 6: { // coalescing
        Allocator a = al[c.below(al.size())];
        bool pool = a.getStrategyName() == "QuickPool" || a.getStrategyName() == "DynamicPoolList";
        c.trace("try_coalesce %s", a.getName().c_str());
        int ex = 0;
        bool did = false;
        try {
          did = umpire::try_coalesce(a);
        } catch (umpire::out_of_memory_error&) {
          ex = 1;
        }
        if (!ex) PCHECK(c, did == pool, "try-coalesce", "try_coalesce(\"%s\", a %s) returned %d", a.getName().c_str(), a.getStrategyName().c_str(), (int)did);
        if (!pool) PCHECK(c, caught([&] { umpire::coalesce(a); }) == 1, "coalesce", "coalesce(\"%s\") did not throw", a.getName().c_str());
        break;
      }
      default: check_records(); break;
    }
  }
  check_records();
  if (ext && overlapping && freed) c.nontrivial();
}

void errors(Ctx& c)
{
  while (c.more(12)) {
    c.step();
    c.reset_ops();
    std::string msg, file;
    for (unsigned n = c.below(40); n--;) msg.push_back("abc {}%s\n\"\\0"[c.below(12)]);
    for (unsigned n = c.below(20); n--;) file.push_back("a/b.cp_"[c.below(7)]);
    int line = (int)c.below(100000);
    c.trace("error \"%s\" %s:%d", msg.c_str(), file.c_str(), line);
    std::string want = "! Umpire runtime_error [" + file + ":" + std::to_string(line) + "]: " + msg;
    auto check = [&](const umpire::runtime_error& e) {
      PCHECK(c, std::string(e.what()).compare(0, want.size(), want) == 0, "error-what", "what() is \"%s\"", e.what());
      PCHECK(c, e.message().compare(0, want.size(), want) == 0, "error-message", "message() is \"%s\"", e.message().c_str());
      umpire::runtime_error copy(e);
      PCHECK(c, std::string(copy.what()) == e.what(), "error-copy", "a copy says \"%s\"", copy.what());
    };
    check(umpire::runtime_error(msg, file, line));
    umpire::out_of_memory_error o(msg, file, line);
    check(o);
    PCHECK(c, o.requested_size() == 0 && o.get_allocator_id() == -1, "oom-initial", "a fresh out_of_memory_error names a request");
    check(umpire::resource_error(msg, file, line));
    umpire::unknown_pointer_error u(msg, file, line);
    check(u);
    bool is_base = false;
    try {
      throw o;
    } catch (std::runtime_error& e) {
      is_base = std::string(e.what()).compare(0, want.size(), want) == 0;
    }
    PCHECK(c, is_base, "error-base", "what() through std::runtime_error differs");
    c.nontrivial();
    if (c.chance(1, 4)) break;
  }
}

// Fragmentation = 1 - (largest free block) / (total free space), over address-ordered records
// What the system says about this process, read independently
std::size_t system_usage(bool hwm)
{
  FILE* f = fopen(hwm ? "/proc/self/status" : "/proc/self/statm", "r");
  char line[256];
  unsigned long long v = 0, w = 0;
  while (f && fgets(line, sizeof line, f)) {
    if (hwm && sscanf(line, "VmHWM: %llu", &v) == 1) {
      v *= 1024;
      break;
    }
    if (!hwm && sscanf(line, "%llu %llu", &w, &v) == 2) {
      v *= (unsigned long long)sysconf(_SC_PAGE_SIZE);
      break;
    }
  }
  if (f) fclose(f);
  return (std::size_t)v;
}

void usage(Ctx& c)
{
  static std::vector<std::unique_ptr<char[]>> held;
  for (int i = 0; i < 2; ++i) {
    std::size_t n = c.range(1, 32) << 16;
    held.emplace_back(new char[n]);
    memset(held.back().get(), 1, n);
    if (c.chance(1, 3)) held.clear();
    bool hwm = c.chance(1, 2);
    std::size_t a = system_usage(hwm);
    std::size_t u = hwm ? umpire::get_process_memory_usage_hwm() : umpire::get_process_memory_usage();
    std::size_t b = system_usage(hwm);
    std::size_t slack = 4 << 20;
    c.trace("%s: system %zu, %zu; reported %zu", hwm ? "high watermark" : "resident", a, b, u);
    PCHECK(c, u + slack >= std::min(a, b) && u <= std::max(a, b) + slack, "process-usage", "the %s memory of the process is reported as %zu; the system says %zu",
           hwm ? "peak" : "resident", u, a);
  }
  c.nontrivial();
}

void fragmentation(Ctx& c)
{
  while (c.more(8)) {
    c.step();
    std::vector<umpire::util::AllocationRecord> v;
    std::uintptr_t at = 0x10000 + c.below(1000);
    std::size_t largest = 0, total = 0;
    unsigned n = c.below(9), gaps = 0;
    for (unsigned i = 0; i < n; ++i) {
      std::size_t len = c.size(100000);
      if (i) {
        std::size_t gap = c.chance(1, 3) ? 0 : c.size(100000);
        at += gap;
        total += gap;
        largest = std::max(largest, gap);
        gaps += gap != 0;
      }
      v.emplace_back((void*)at, len, nullptr);
      at += len;
    }
    c.trace("%u records, largest gap %zu of %zu", n, largest, total);
    float got = umpire::util::relative_fragmentation(v);
    if (total) {
      double want = 1.0 - (double)largest / (double)total;
      PCHECK(c, std::fabs(got - want) < 1e-4, "fragmentation", "%u records, largest free block %zu of %zu free bytes: %g, expected %g", n, largest, total, got, want);
      if (gaps > 1) c.nontrivial();
    } else
      PCHECK(c, got >= 0.0f && got <= 1.0f, "fragmentation-range", "no free space between %u records: %g", n, got);
  }
}

} // namespace

int main(int argc, char** argv)
{
  Settings s;
  s.cpu_s = 30;
  std::string suite = arg(argc, argv, "--suite");
  if (suite == "registry")
    return run_main(argc, argv,
                    {{"registry", 30, 1, registry, "two allocators were made, an alias added and a request rejected"},
                     {"many", 1, 1, many, "every case: at least 200 allocators"},
                     {"names", 1, 16, resource_names, "a name carried a device id"}},
                    s);
  return run_main(argc, argv,
                  {{"introspect", 40, 1, introspect, "an external record, an overlap or containment, and a removal"},
                   {"errors", 1, 16, errors, "any error object"},
                   {"fragmentation", 1, 16, fragmentation, "at least two gaps"},
                   {"usage", 1, 16, usage, "memory was taken before the question"}},
                  s);
}
