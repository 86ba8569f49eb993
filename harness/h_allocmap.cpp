// AllocationMap against a reference multimap: address -> stack of records (last in, first out).
#include "pbt.hpp"

#include <map>
#include <memory>

#include "umpire/strategy/AllocationStrategy.hpp"
#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/AllocationRecord.hpp"
#include "umpire/util/error.hpp"

using namespace pbt;
using umpire::util::AllocationMap;
using umpire::util::AllocationRecord;
using umpire::strategy::AllocationStrategy;

namespace {

struct Rec {
  std::size_t size;
  std::uintptr_t strat;
  std::string name;
  const AllocationRecord* addr; // where find() said the record lives
};

using Addr = std::uintptr_t;

struct Model {
  std::map<Addr, std::vector<Rec>> m;
  std::size_t n{0};

  // the live record that contains a, or nullptr (ranges are disjoint except for equal bases)
  const Rec* lookup(Addr a, Addr* base = nullptr) const
  {
    auto it = m.upper_bound(a);
    if (it == m.begin()) return nullptr;
    --it;
    const Rec& r = it->second.back();
    if (it->first == a || a - it->first < r.size) {
      if (base) *base = it->first;
      return &r;
    }
    return nullptr;
  }
  // Could [a, a+size) be registered without overlapping a record with another base?
  bool fits(Addr a, std::size_t size) const
  {
    auto it = m.upper_bound(a);
    if (it != m.end() && it->first - a < (size ? size : 1)) return false;
    if (it != m.begin()) {
      --it;
      if (it->first != a) {
        std::size_t mx = 0;
        for (auto& r : it->second) mx = std::max(mx, r.size);
        if (a - it->first < (mx ? mx : 1)) return false;
      }
    }
    return true;
  }
};

struct World {
  AllocationMap map;
  Model model;
  unsigned counter{0};
  unsigned long touched{0};
};

// Addresses: a few clusters that differ in different bytes, so radix nodes split at every level.
Addr gen_addr(Ctx& c)
{
  static const Addr bases[] = {0x1000,         0x7f0000001000, 0x7f00ff001000, 0x55550000f000, 0x10000000000,
                               0x7fffffff0000, 0x200000000,    0xff00,         0xffff0000,     0x7ffff7a00000};
  Addr b = bases[c.below(10)];
  switch (c.weighted({6, 4, 3, 2})) {
    case 0: return b + c.below(48) * 16;
    case 1: return b + c.below(300);
    case 2: return b + (c.below(64) << (4 + 4 * c.below(9)));
    default: return b + c.below(1u << 20);
  }
}

void check_lookup(Ctx& c, World& w, Addr a)
{
  if (a == 0) return;
  void* p = reinterpret_cast<void*>(a);
  Addr base = 0;
  const Rec* e = w.model.lookup(a, &base);
  const AllocationRecord* r = w.map.findRecord(p);
  bool has = w.map.contains(p);
  PCHECK(c, has == (e != nullptr), "contains", "contains(%p)=%d, the model says %d", p, has, e != nullptr);
  if (!e) {
    PCHECK(c, r == nullptr, "find-phantom", "findRecord(%p) returned a record at %p size %zu, none is live there", p,
           r ? r->ptr : nullptr, r ? r->size : 0);
    bool threw = false;
    try {
      w.map.find(p);
    } catch (const umpire::unknown_pointer_error&) {
      threw = true;
    }
    PCHECK(c, threw, "find-unknown-no-throw", "find(%p) did not throw for an address nothing covers", p);
    return;
  }
  PCHECK(c, r != nullptr, "find-missed", "findRecord(%p) found nothing; live record at %p size %zu", p, (void*)base,
         e->size);
  PCHECK(c, r->ptr == (void*)base && r->size == e->size && (std::uintptr_t)r->strategy == e->strat && r->name == e->name,
         "find-wrong", "findRecord(%p): got {%p,%zu,%p,%s} want {%p,%zu,%p,%s}", p, r->ptr, r->size, (void*)r->strategy,
         r->name.c_str(), (void*)base, e->size, (void*)e->strat, e->name.c_str());
  const AllocationRecord* f = nullptr;
  try {
    f = w.map.find(p);
  } catch (...) {
    c.fail("find-throws", "find(%p) threw for a live address", p);
  }
  PCHECK(c, f == r, "find-vs-findRecord", "find and findRecord disagree for %p", p);
  PCHECK(c, e->addr == nullptr || e->addr == r, "record-moved", "the record of %p moved from %p to %p while registered",
         (void*)base, (void*)e->addr, (void*)r);
}

void check_around(Ctx& c, World& w, Addr base, std::size_t size)
{
  check_lookup(c, w, base);
  check_lookup(c, w, base - 1);
  check_lookup(c, w, base + 1);
  if (size) {
    check_lookup(c, w, base + size - 1);
    check_lookup(c, w, base + size / 2);
  }
  check_lookup(c, w, base + size);
  check_lookup(c, w, base + size + 1);
}

void check_iteration(Ctx& c, World& w)
{
  PCHECK(c, w.map.size() == w.model.n, "size", "size()=%zu, model has %zu records", w.map.size(), w.model.n);
  auto it = w.map.begin();
  auto end = w.map.end();
  std::size_t seen = 0;
  auto k = w.model.m.begin();
  while (k != w.model.m.end()) {
    std::multiset<std::pair<std::size_t, std::string>> want, got;
    for (auto& r : k->second) want.insert({r.size, r.name});
    for (std::size_t i = 0; i < k->second.size(); ++i) {
      PCHECK(c, it != end, "iter-short", "iteration ended after %zu of %zu records", seen, w.model.n);
      PCHECK(c, it->ptr == (void*)k->first, "iter-order", "iteration gave %p where the model has %p", it->ptr,
             (void*)k->first);
      got.insert({it->size, (*it).name});
      ++seen;
      if (seen & 1) ++it; else it++;
    }
    PCHECK(c, got == want, "iter-content", "iteration gave other records for %p", (void*)k->first);
    ++k;
  }
  PCHECK(c, !(it != end) && it == end, "iter-long", "iteration goes on after all %zu records", w.model.n);
}

void do_insert(Ctx& c, World& w, Addr a, std::size_t size)
{
  std::string name = (w.counter % 3 == 0) ? "" : "nm" + std::to_string(w.counter) + "x";
  std::uintptr_t strat = 0x1000 + 16 * (w.counter % 5);
  ++w.counter;
  w.map.insert((void*)a, AllocationRecord{(void*)a, size, (AllocationStrategy*)strat, name});
  w.model.m[a].push_back(Rec{size, strat, name, nullptr});
  w.model.n++;
  const AllocationRecord* r = w.map.findRecord((void*)a);
  PCHECK(c, r, "find-missed", "nothing at %p right after insert", (void*)a);
  w.model.m[a].back().addr = r;
}

void do_remove(Ctx& c, World& w, Addr a)
{
  auto it = w.model.m.find(a);
  if (it == w.model.m.end()) {
    bool threw = false;
    try {
      w.map.remove((void*)a);
    } catch (const umpire::runtime_error&) {
      threw = true;
    }
    PCHECK(c, threw, "remove-unknown-no-throw", "remove(%p) of an address that is no base did not throw", (void*)a);
    PCHECK(c, w.map.size() == w.model.n, "size", "failed remove changed size to %zu, want %zu", w.map.size(), w.model.n);
    return;
  }
  Rec e = it->second.back();
  AllocationRecord r;
  try {
    r = w.map.remove((void*)a);
  } catch (const std::exception& ex) {
    c.fail("remove-throws", "remove(%p) threw: %s", (void*)a, ex.what());
  }
  PCHECK(c, r.ptr == (void*)a && r.size == e.size && (std::uintptr_t)r.strategy == e.strat && r.name == e.name,
         "remove-wrong", "remove(%p) gave {%p,%zu,%s}, want the latest {%zu,%s}", (void*)a, r.ptr, r.size,
         r.name.c_str(), e.size, e.name.c_str());
  it->second.pop_back();
  if (it->second.empty()) w.model.m.erase(it);
  w.model.n--;
}

Addr some_base(Ctx& c, World& w)
{
  std::size_t k = c.below(w.model.m.size());
  auto it = w.model.m.begin();
  std::advance(it, k);
  return it->first;
}

void check_print(Ctx& c, World& w, unsigned mod)
{
  std::ostringstream os;
  w.map.print([&](const AllocationRecord& r) { return (std::uintptr_t)r.ptr / 16 % 4 == mod; }, os);
  std::string s = os.str();
  for (auto& k : w.model.m)
    for (auto& r : k.second)
      if (!r.name.empty()) {
        bool want = k.first / 16 % 4 == mod;
        PCHECK(c, (s.find(r.name) != std::string::npos) == want, "print", "record %s %s the output of print()",
               r.name.c_str(), want ? "is missing from" : "appears in");
      }
}

void history(Ctx& c)
{
  World* w = new World;
  bool dup = false, rem = false, split = false;
  while (c.more(120, 40)) {
    c.step();
    switch (c.weighted({120, 96, 80, 32, 24, 16, 4, 32, 12, 1})) {
      case 0: { // insert
        Addr a = gen_addr(c);
        std::size_t size = c.chance(1, 8) ? 0 : c.size(1 << 16);
        while (size > 1 && !w->model.fits(a, size)) size /= 2;
        if (!w->model.fits(a, size)) break;
        if (w->model.m.count(a)) dup = true;
        c.trace("insert %p size %zu", (void*)a, size);
        do_insert(c, *w, a, size);
        check_around(c, *w, a, size);
        break;
      }
      case 1: { // remove a live base
        if (w->model.m.empty()) break;
        Addr a = some_base(c, *w);
        c.trace("remove %p", (void*)a);
        std::size_t sz = w->model.m[a].back().size;
        do_remove(c, *w, a);
        check_around(c, *w, a, sz);
        rem = true;
        break;
      }
      case 2: { // look up around a live base
        if (w->model.m.empty()) break;
        Addr a = some_base(c, *w);
        std::size_t s = w->model.m[a].back().size;
        Addr q = a + c.below(s + 40) - 8;
        c.trace("find %p", (void*)q);
        check_lookup(c, *w, q);
        break;
      }
      case 3: {
        Addr a = gen_addr(c);
        c.trace("find %p", (void*)a);
        check_lookup(c, *w, a);
        break;
      }
      case 4: { // remove something that is not a base
        Addr a = gen_addr(c);
        if (w->model.m.count(a)) break;
        if (!w->model.m.empty() && c.chance(1, 2)) {
          Addr b = some_base(c, *w) + 1 + c.below(20);
          if (w->model.m.count(b)) break;
          a = b;
        }
        c.trace("remove-unknown %p", (void*)a);
        do_remove(c, *w, a);
        break;
      }
      case 5:
        c.trace("iterate");
        check_iteration(c, *w);
        break;
      case 6:
        c.trace("clear");
        w->map.clear();
        w->model.m.clear();
        w->model.n = 0;
        c.label("clear");
        break;
      case 7: { // bulk insert with a stride: fills radix nodes
        Addr a = gen_addr(c);
        std::size_t stride = std::size_t{1} << c.range(0, 20);
        std::size_t n = c.range(1, 260);
        c.trace("bulk-insert %p stride %zu n %zu", (void*)a, stride, n);
        for (std::size_t i = 0; i < n; ++i) {
          Addr b = a + i * stride;
          std::size_t s = 1 + i % stride;
          if (!w->model.fits(b, s)) continue;
          do_insert(c, *w, b, s);
        }
        for (std::size_t i = 0; i < n; i += 1 + n / 16) check_around(c, *w, a + i * stride, 1 + i % stride);
        split = true;
        break;
      }
      case 9: { // very many records at one address
        Addr a = gen_addr(c);
        std::size_t n = c.range(200, 900), down = c.below(n + 1);
        if (!w->model.fits(a, 64)) break;
        c.trace("pile %zu records on %p and remove %zu", n, (void*)a, down);
        for (std::size_t i = 0; i < n; ++i) do_insert(c, *w, a, 1 + i % 64);
        check_around(c, *w, a, w->model.m[a].back().size);
        for (std::size_t i = 0; i < down; ++i) do_remove(c, *w, a);
        check_around(c, *w, a, 64);
        dup = rem = true;
        c.label("pile");
        break;
      }
      default: { // bulk remove every k-th
        std::size_t k = c.range(1, 5), i = 0;
        std::vector<Addr> kill;
        for (auto& e : w->model.m)
          if (i++ % k == 0) kill.push_back(e.first);
        c.trace("bulk-remove every %zu (%zu)", k, kill.size());
        for (Addr a : kill) {
          do_remove(c, *w, a);
        }
        for (std::size_t j = 0; j < kill.size(); j += 1 + kill.size() / 16) check_around(c, *w, kill[j], 1);
        rem = rem || !kill.empty();
        break;
      }
    }
  }
  c.trace("final scan");
  check_iteration(c, *w);
  for (auto& k : w->model.m) check_around(c, *w, k.first, k.second.back().size);
  check_print(c, *w, c.below(4));
  if (dup) c.label("several_records_one_address");
  if (rem) c.label("removal");
  if (split) c.label("bulk");
  if (rem && (dup || split)) c.nontrivial();
  delete w;
}

// more records than 16 bits can count
void large(Ctx& c)
{
  std::unique_ptr<World> w(new World);
  std::size_t n = c.chance(1, 2) ? c.range(1000, 5000) : c.range(66000, 80000);
  Addr a = 0x7f0000001000 + c.below(1 << 20);
  std::size_t stride = std::size_t{1} << c.range(1, 20);
  c.trace("%zu records, stride %zu", n, stride);
  for (std::size_t i = 0; i < n; ++i) do_insert(c, *w, a + (i * 7919 % n) * stride, w->model.fits(a + (i * 7919 % n) * stride, stride) ? 1 + i % stride : 0);
  check_iteration(c, *w);
  for (std::size_t i = 0; i < n; i += 1 + n / 200) check_around(c, *w, a + i * stride, 1);
  std::size_t k = c.range(1, 3);
  std::vector<Addr> kill;
  for (auto& e : w->model.m)
    if (kill.size() * k <= w->model.m.size()) kill.push_back(e.first);
  if (c.chance(1, 2)) std::reverse(kill.begin(), kill.end());
  for (Addr x : kill) do_remove(c, *w, x);
  check_iteration(c, *w);
  for (std::size_t i = 0; i < n; i += 1 + n / 200) check_around(c, *w, a + i * stride, 1);
  c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
  Settings st;
  return run_main(argc, argv,
                  {{"large", 1, 1, large, "every case: at least a thousand records"},
                   {"history", 40, 8, history,
                    "a removal happened and either one address held several records or a bulk insert ran"}},
                  st);
}
