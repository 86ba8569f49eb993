// The address-keyed map, the Judy arrays below it, and the fixed-size object pool, each against a reference model.
#include "pbt.hpp"

#include <map>
#include <memory>
#include <set>

#include "umpire/judy/judyL2Array.h"
#include "umpire/judy/judyLArray.h"
#include "umpire/util/FixedMallocPool.hpp"
#include <iostream>
#include "umpire/strategy/StdAllocator.hpp"
#include "umpire/strategy/FixedSizePool.hpp"
#include "umpire/util/MemoryMap.hpp"
#include "umpire/util/error.hpp"
#include "umpire/util/find_first_set.hpp"

using namespace pbt;
using Addr = std::uintptr_t;

namespace {

// Clusters that differ in different bytes, so that the tree splits at every level; keys are never zero.
Addr gen_key(Ctx& c, const std::vector<Addr>& near)
{
  static const Addr bases[] = {0x1000, 0x1, 0x7f0000001000, 0x7f00ff001000, 0x55550000f000, 0x10000000000, 0x7fffffff0000,
                               0x200000000, 0xff00, 0xffff0000, 0x8000000000000000ull, 0xff00000000000001ull, 0xfffffffffffffff0ull};
  if (!near.empty() && c.chance(1, 3)) {
    Addr a = near[c.below(near.size())];
    switch (c.below(4)) {
      case 0: return a + 1 ? a + 1 : a;
      case 1: return a - 1 ? a - 1 : a;
      case 2: a ^= Addr{1} << c.below(64); return a ? a : 1;
      default: return a;
    }
  }
  Addr b = bases[c.below(13)];
  Addr r;
  switch (c.weighted({6, 4, 4, 2})) {
    case 0: r = b + c.below(48) * 16; break;
    case 1: r = b + c.below(300); break;
    case 2: r = b + (c.below(256) << (8 * c.below(8))); break;
    default: r = b + c.below(1u << 20); break;
  }
  return r ? r : 1;
}

struct Cell {
  long v;
  long w;
  explicit Cell(long a, long b = 7) : v(a), w(b) { ++alive; }
  Cell(const Cell& o) : v(o.v), w(o.w) { ++alive; }
  ~Cell() { --alive; v = w = -1; }
  static long alive;
};
long Cell::alive = 0;

using Map = umpire::util::MemoryMap<Cell>;
struct MCell {
  long v;
  const Cell* at;
};
using Model = std::map<Addr, MCell>;

std::vector<Addr> some_keys(const Model& m)
{
  std::vector<Addr> v;
  for (auto& e : m) {
    v.push_back(e.first);
    if (v.size() >= 64) break;
  }
  return v;
}

void* P(Addr a) { return reinterpret_cast<void*>(a); }

void mm_scan(Ctx& c, Map& map, Model& m, bool constant)
{
  PCHECK(c, map.size() == m.size(), "size", "size() is %zu, %zu entries were inserted and not erased", map.size(), m.size());
  auto e = m.begin();
  if (constant) {
    const Map& cm = map;
    auto end = cm.end();
    for (auto it = cm.begin(); it != end; ++it, ++e) {
      PCHECK(c, e != m.end(), "iterate-extra", "iteration gives %p after the last entry", it->first);
      PCHECK(c, it->first == P(e->first), "iterate-order", "iteration gives %p, the next key is %p", it->first, P(e->first));
      PCHECK(c, it->second && it->second->v == e->second.v, "iterate-value", "iteration gives the wrong value for %p", it->first);
    }
  } else {
    auto end = map.end();
    for (auto it = map.begin(); it != end; ++it, ++e) {
      PCHECK(c, e != m.end(), "iterate-extra", "iteration gives %p after the last entry", it->first);
      PCHECK(c, it->first == P(e->first), "iterate-order", "iteration gives %p, the next key is %p", it->first, P(e->first));
      PCHECK(c, it->second && it->second->v == e->second.v, "iterate-value", "iteration gives the wrong value for %p", it->first);
    }
  }
  PCHECK(c, e == m.end(), "iterate-missing", "iteration ends before %p", P(e->first));
}

void mm_probe(Ctx& c, Map& map, Model& m, Addr a)
{
  if (!a) return;
  auto e = m.find(a);
  if (c.chance(1, 2)) {
    auto it = map.find(P(a));
    PCHECK(c, (it != map.end()) == (e != m.end()), "find", "find(%p) says %d, the entry %s", P(a), it != map.end(),
           e != m.end() ? "exists" : "does not exist");
    if (e != m.end()) {
      PCHECK(c, it->first == P(a) && it->second && it->second->v == e->second.v, "find-value", "find(%p) gives %p", P(a), it->first);
      PCHECK(c, it->second == e->second.at, "value-moved", "the value of %p moved from %p to %p", P(a), (void*)e->second.at, (void*)it->second);
    } else
      PCHECK(c, it->second == nullptr, "find-value", "find(%p) of an absent key gives a value", P(a));
  } else {
    const Map& cm = map;
    auto it = cm.find(P(a));
    PCHECK(c, (it != cm.end()) == (e != m.end()), "find", "find(%p) const says %d", P(a), it != cm.end());
    if (e != m.end()) PCHECK(c, it->second && it->second->v == e->second.v, "find-value", "find(%p) const gives the wrong value", P(a));
  }
  auto lb = m.upper_bound(a);
  bool none = lb == m.begin();
  if (!none) --lb;
  if (c.chance(1, 2)) {
    auto it = map.findOrBefore(P(a));
    PCHECK(c, (it->second == nullptr) == none, "find-or-before", "findOrBefore(%p) %s a value, %s", P(a), it->second ? "gives" : "does not give",
           none ? "no key is at or before it" : "one exists");
    if (!none)
      PCHECK(c, it->first == P(lb->first) && it->second->v == lb->second.v, "find-or-before", "findOrBefore(%p) gives %p, the nearest key is %p",
             P(a), it->first, P(lb->first));
  } else {
    const Map& cm = map;
    auto it = cm.findOrBefore(P(a));
    PCHECK(c, (it->second == nullptr) == none, "find-or-before", "findOrBefore(%p) const: wrong existence", P(a));
    if (!none)
      PCHECK(c, it->first == P(lb->first) && it->second->v == lb->second.v, "find-or-before",
             "findOrBefore(%p) const gives %p, the nearest key is %p", P(a), it->first, P(lb->first));
  }
}

void mm_probe_around(Ctx& c, Map& map, Model& m, Addr a)
{
  mm_probe(c, map, m, a);
  mm_probe(c, map, m, a - 1);
  mm_probe(c, map, m, a + 1);
}

void memorymap(Ctx& c)
{
  Cell::alive = 0;
  std::size_t erased = 0, dup = 0, iters = 0, bulk = 0;
  {
    std::unique_ptr<Map> mp(new Map);
    Map& map = *mp;
    Model m;
    long serial = 1;
    struct It {
      Map::Iterator it;
      Addr at;
    };
    std::vector<It> held; // iterators kept over other operations
    auto ins = [&](Addr a, unsigned how) {
      long v = serial++;
      std::pair<Map::Iterator, bool> r{map.end(), false};
      switch (how) {
        case 0: {
          const Cell cell(v);
          r = map.insert(P(a), cell);
          break;
        }
        case 1: {
          std::pair<void*, Cell> pr(P(a), Cell(v));
          r = map.insert(pr);
          break;
        }
        case 2: r = map.insert(P(a), v, 3L); break;
        default: {
          const std::pair<void*, Cell> pr(P(a), Cell(v));
          r = map.insert(pr);
          break;
        }
      }
      bool isnew = !m.count(a);
      PCHECK(c, r.second == isnew, "insert-flag", "insert(%p) (form %u) reports %s, the key was %s", P(a), how, r.second ? "added" : "not added",
             isnew ? "new" : "present");
      PCHECK(c, r.first->first == P(a) && r.first->second, "insert-iterator", "insert(%p) returned an iterator to %p", P(a), r.first->first);
      if (isnew)
        m[a] = MCell{v, r.first->second};
      else
        ++dup;
      PCHECK(c, r.first->second->v == m[a].v, "insert-value", "after insert(%p) the value is %ld, it should be %ld", P(a), r.first->second->v, m[a].v);
      return r.first;
    };
    auto drop_held = [&](Addr a) {
      for (std::size_t i = 0; i < held.size();)
        if (held[i].at == a) held.erase(held.begin() + i);
        else ++i;
    };
    while (c.more(80, 60)) {
      c.step();
      switch (c.weighted({8, 6, 4, 3, 4, 4, 2, 1, 3, 3, 3})) {
        case 0: {
          Addr a = gen_key(c, some_keys(m));
          unsigned how = (unsigned)c.below(4);
          c.trace("insert(%p) form %u", P(a), how);
          auto it = ins(a, how);
          if (c.chance(1, 4)) held.push_back({it, a});
          mm_probe_around(c, map, m, a);
          break;
        }
        case 1: {
          Addr a = gen_key(c, some_keys(m));
          c.trace("probe %p", P(a));
          mm_probe_around(c, map, m, a);
          break;
        }
        case 2: { // erase
          Addr a = gen_key(c, some_keys(m));
          bool has = m.count(a);
          c.trace("erase(%p)%s", P(a), has ? "" : " absent");
          bool threw = false;
          try {
            map.erase(P(a));
          } catch (const umpire::runtime_error&) {
            threw = true;
          }
          PCHECK(c, threw == !has, "erase", "erase(%p) %s, the key was %s", P(a), threw ? "threw" : "did not throw", has ? "present" : "absent");
          if (has) {
            m.erase(a);
            drop_held(a);
            ++erased;
          }
          mm_probe_around(c, map, m, a);
          break;
        }
        case 3: { // erase by iterator / removeLast right after a lookup
          if (m.empty()) break;
          auto e = m.begin();
          std::advance(e, c.below(m.size()));
          Addr a = e->first;
          unsigned how = (unsigned)c.below(4);
          c.trace("erase %p, way %u", P(a), how);
          if (how == 0) map.erase(map.find(P(a)));
          else if (how == 1) map.erase(static_cast<const Map&>(map).find(P(a)));
          else if (how == 2) {
            map.find(P(a));
            map.removeLast();
          } else {
            map.findOrBefore(P(a));
            map.removeLast();
          }
          m.erase(a);
          drop_held(a);
          ++erased;
          mm_probe_around(c, map, m, a);
          break;
        }
        case 4: { // bulk
          Addr a = gen_key(c, {});
          std::size_t n = c.range(2, 300), stride = std::size_t{1} << c.below(12);
          if (c.chance(1, 3)) stride = c.range(1, 400);
          if (a + n * stride < a) break;
          c.trace("bulk insert %p + i*%zu, %zu keys", P(a), stride, n);
          for (std::size_t i = 0; i < n; ++i) ins(a + i * stride, 2);
          for (std::size_t i = 0; i < n; i += 1 + n / 12) mm_probe_around(c, map, m, a + i * stride);
          ++bulk;
          break;
        }
        case 5: {
          std::size_t k = c.range(1, 6), i = 0, off = c.below(k);
          std::vector<Addr> kill;
          for (auto& e : m)
            if (i++ % k == off) kill.push_back(e.first);
          if (c.chance(1, 3)) std::reverse(kill.begin(), kill.end());
          c.trace("bulk erase %zu of %zu", kill.size(), m.size());
          for (Addr a : kill) {
            map.erase(P(a));
            m.erase(a);
            drop_held(a);
          }
          for (std::size_t j = 0; j < kill.size(); j += 1 + kill.size() / 12) mm_probe_around(c, map, m, kill[j]);
          erased += kill.size();
          break;
        }
        case 6:
          c.trace("scan");
          mm_scan(c, map, m, c.chance(1, 2));
          break;
        case 7:
          c.trace("clear");
          map.clear();
          m.clear();
          held.clear();
          mm_scan(c, map, m, false);
          break;
        case 8: { // write through an iterator
          if (m.empty()) break;
          auto e = m.begin();
          std::advance(e, c.below(m.size()));
          long v = serial++;
          c.trace("value of %p := %ld", P(e->first), v);
          auto it = map.find(P(e->first));
          it->second->v = v;
          e->second.v = v;
          break;
        }
        case 9: { // keep, copy and assign iterators
          if (m.empty()) break;
          auto e = m.begin();
          std::advance(e, c.below(m.size()));
          c.trace("keep an iterator to %p", P(e->first));
          if (!held.empty() && c.chance(1, 2)) {
            std::size_t i = c.below(held.size());
            held[i].it = map.find(P(e->first));
            held[i].at = e->first;
          } else if (!held.empty() && c.chance(1, 2)) {
            std::size_t i = c.below(held.size()), j = c.below(held.size());
            held[i] = held[j];
          } else
            held.push_back({map.find(P(e->first)), e->first});
          break;
        }
        default: { // advance a kept iterator
          if (held.empty()) break;
          std::size_t i = c.below(held.size());
          std::size_t steps = c.range(1, 4);
          c.trace("advance the iterator at %p by %zu", P(held[i].at), steps);
          ++iters;
          for (std::size_t s = 0; s < steps; ++s) {
            auto nx = m.upper_bound(held[i].at);
            Addr was = held[i].at;
            if (c.chance(1, 4)) {
              auto old = held[i].it++;
              PCHECK(c, old->first == P(was), "postfix", "it++ gives an iterator at %p, it was at %p", old->first, P(was));
            } else
              ++held[i].it;
            if (nx == m.end()) {
              PCHECK(c, held[i].it == map.end(), "advance-end", "advancing from the last key %p gives %p", P(was), held[i].it->first);
              held.erase(held.begin() + i);
              break;
            }
            PCHECK(c, held[i].it != map.end() && held[i].it->first == P(nx->first), "advance", "advancing from %p gives %p, the next key is %p",
                   P(was), held[i].it->first, P(nx->first));
            PCHECK(c, held[i].it->second->v == nx->second.v, "advance-value", "wrong value after advancing to %p", P(nx->first));
            held[i].at = nx->first;
          }
          break;
        }
      }
      PCHECK(c, map.size() == m.size(), "size", "size() is %zu, it should be %zu", map.size(), m.size());
      PCHECK(c, Cell::alive == (long)m.size(), "lifetime", "%ld values are alive, the map has %zu entries", Cell::alive, m.size());
    }
    c.trace("final scan");
    mm_scan(c, map, m, true);
    mm_scan(c, map, m, false);
    std::size_t k = 0;
    for (auto& e : m)
      if (k++ % (1 + m.size() / 40) == 0) mm_probe_around(c, map, m, e.first);
  }
  PCHECK(c, Cell::alive == 0, "lifetime", "%ld values are alive after the map was destroyed", Cell::alive);
  if (bulk) c.label("bulk");
  if (dup) c.label("duplicate-insert");
  if (iters) c.label("kept-iterator-advanced");
  if (erased) c.label("erased");
  if (erased && (bulk || iters)) c.nontrivial();
}

// more keys than 16 bits can count
void memorymap_large(Ctx& c)
{
  Cell::alive = 0;
  {
    std::unique_ptr<Map> mp(new Map);
    Map& map = *mp;
    Model m;
    std::size_t n = c.chance(1, 2) ? c.range(1000, 5000) : c.range(66000, 90000);
    unsigned shape = (unsigned)c.below(3);
    Addr a = gen_key(c, {}) >> 2;
    if (!a) a = 16; // no map has a null key
    std::size_t stride = std::size_t{1} << c.range(0, 12);
    Rng r(c.below(1u << 30));
    c.trace("%zu keys, shape %u", n, shape);
    for (unsigned round = 0; round < 2; ++round) {
      for (std::size_t i = 0; i < n; ++i) {
        Addr k = shape == 0 ? a + i * stride : shape == 1 ? 1 + r.next() % (std::size_t{1} << 48) : a + (r.below(64) << 36) + r.below(n) * 16 + 1;
        auto x = map.insert(P(k), (long)i, 5L);
        PCHECK(c, x.second == !m.count(k) && x.first->first == P(k), "insert-flag", "insert(%p) with %zu entries present: wrong result", P(k), m.size());
        if (x.second) m[k] = MCell{(long)i, x.first->second};
      }
      mm_scan(c, map, m, round == 0);
      std::size_t j = 0;
      for (auto& e : m)
        if (j++ % (1 + m.size() / 60) == 0) mm_probe_around(c, map, m, e.first);
      PCHECK(c, Cell::alive == (long)m.size(), "lifetime", "%ld values are alive, the map has %zu entries", Cell::alive, m.size());
      if (c.chance(1, 2)) {
        c.trace("clear %zu", m.size());
        map.clear();
        m.clear();
      } else {
        std::size_t k = c.range(1, 4);
        j = 0;
        for (auto e = m.begin(); e != m.end();)
          if (j++ % k == 0) {
            map.erase(P(e->first));
            e = m.erase(e);
          } else
            ++e;
        c.trace("erase every %zu", k);
      }
      mm_scan(c, map, m, round == 1);
      PCHECK(c, Cell::alive == (long)m.size(), "lifetime", "%ld values are alive, the map has %zu entries", Cell::alive, m.size());
    }
    if (n > 65536) c.label("more-than-65536-keys");
    c.nontrivial();
  }
  PCHECK(c, Cell::alive == 0, "lifetime", "%ld values are alive after the map was destroyed", Cell::alive);
}

// ---------------------------------------------------------------------------------------------------------
using JL = judyLArray<std::uint64_t, std::uint64_t>;

void judyl(Ctx& c)
{
  std::unique_ptr<JL> jp(new JL);
  JL& j = *jp;
  std::map<std::uint64_t, std::uint64_t> m;
  std::uint64_t serial = 1;
  std::size_t erased = 0, bulk = 0, walked = 0;
  std::vector<Addr> near;
  auto probe = [&](std::uint64_t k) {
    auto e = m.find(k);
    std::uint64_t v = j.find(k);
    PCHECK(c, (v != 0) == (e != m.end()) && j.success() == (e != m.end()), "judy-find", "find(%llx) gives %llu", (unsigned long long)k, (unsigned long long)v);
    if (e != m.end()) PCHECK(c, v == e->second, "judy-find", "find(%llx) gives the wrong value", (unsigned long long)k);
    auto lb = m.lower_bound(k);
    auto p = j.atOrAfter(k);
    PCHECK(c, (p.value != 0) == (lb != m.end()), "judy-at-or-after", "atOrAfter(%llx): existence", (unsigned long long)k);
    if (lb != m.end())
      PCHECK(c, p.key == lb->first && p.value == lb->second, "judy-at-or-after", "atOrAfter(%llx) gives %llx, it is %llx", (unsigned long long)k,
             (unsigned long long)p.key, (unsigned long long)lb->first);
    auto ub = m.upper_bound(k);
    p = j.atOrBefore(k);
    bool none = ub == m.begin();
    if (!none) --ub;
    PCHECK(c, (p.value != 0) == !none, "judy-at-or-before", "atOrBefore(%llx): existence %llx", (unsigned long long)k, (unsigned long long)p.key);
    if (!none)
      PCHECK(c, p.key == ub->first && p.value == ub->second, "judy-at-or-before", "atOrBefore(%llx) gives %llx, it is %llx", (unsigned long long)k,
             (unsigned long long)p.key, (unsigned long long)ub->first);
  };
  while (c.more(60, 60)) {
    c.step();
    near.clear();
    for (auto& e : m) {
      near.push_back(e.first);
      if (near.size() > 64) break;
    }
    switch (c.weighted({8, 5, 4, 3, 3, 3, 1})) {
      case 0: {
        std::uint64_t k = gen_key(c, near);
        c.trace("insert %llx", (unsigned long long)k);
        j.insert(k, serial);
        PCHECK(c, j.success(), "judy-insert", "insert failed");
        m[k] = serial++;
        probe(k), probe(k + 1), probe(k - 1);
        break;
      }
      case 1: {
        std::uint64_t k = gen_key(c, near);
        c.trace("probe %llx", (unsigned long long)k);
        probe(k);
        break;
      }
      case 2: {
        std::uint64_t k = gen_key(c, near);
        auto e = m.find(k);
        c.trace("remove %llx%s", (unsigned long long)k, e == m.end() ? " absent" : "");
        std::uint64_t v = j.remove(k);
        PCHECK(c, v == (e == m.end() ? 0 : e->second), "judy-remove", "remove(%llx) returned %llu", (unsigned long long)k, (unsigned long long)v);
        if (e != m.end()) m.erase(e), ++erased;
        probe(k), probe(k + 1), probe(k - 1);
        break;
      }
      case 3: {
        Addr a = gen_key(c, {});
        std::size_t n = c.range(2, 300), stride = c.chance(1, 2) ? std::size_t{1} << c.below(14) : c.range(1, 400);
        if (a + n * stride < a) break;
        c.trace("bulk %llx + i*%zu, %zu keys", (unsigned long long)a, stride, n);
        for (std::size_t i = 0; i < n; ++i) j.insert(a + i * stride, serial), m[a + i * stride] = serial, ++serial;
        for (std::size_t i = 0; i < n; i += 1 + n / 10) probe(a + i * stride), probe(a + i * stride + 1);
        ++bulk;
        break;
      }
      case 4: {
        std::size_t k = c.range(1, 6), i = 0;
        std::vector<std::uint64_t> kill;
        for (auto& e : m)
          if (i++ % k == 0) kill.push_back(e.first);
        c.trace("bulk remove %zu of %zu", kill.size(), m.size());
        for (auto x : kill) {
          PCHECK(c, j.remove(x) == m[x], "judy-remove", "remove(%llx) returned the wrong value", (unsigned long long)x);
          m.erase(x);
        }
        for (std::size_t q = 0; q < kill.size(); q += 1 + kill.size() / 10) probe(kill[q]);
        erased += kill.size();
        break;
      }
      case 5: { // walk
        ++walked;
        if (m.empty() || c.chance(1, 3)) {
          PCHECK(c, j.isEmpty() == m.empty(), "judy-empty", "isEmpty() is wrong with %zu keys", m.size());
          break;
        }
        bool fwd = c.chance(1, 2);
        std::size_t steps = c.range(1, 12);
        auto it = m.begin();
        if (c.chance(1, 2)) {
          std::advance(it, c.below(m.size()));
          auto p = j.atOrAfter(it->first);
          PCHECK(c, p.key == it->first, "judy-walk", "atOrAfter(%llx)", (unsigned long long)it->first);
        } else if (fwd) {
          PCHECK(c, j.begin().key == it->first, "judy-begin", "begin() is %llx, the first key is %llx", (unsigned long long)j.begin().key, (unsigned long long)it->first);
        } else {
          it = std::prev(m.end());
          auto p = j.end();
          PCHECK(c, p.key == it->first && p.value == it->second, "judy-end", "end() is %llx, the last key is %llx", (unsigned long long)p.key, (unsigned long long)it->first);
        }
        c.trace("walk %s %zu from %llx", fwd ? "forward" : "back", steps, (unsigned long long)it->first);
        while (steps--) {
          if (fwd) {
            ++it;
            auto p = j.next();
            PCHECK(c, (p.value != 0) == (it != m.end()), "judy-next", "next(): existence");
            if (it == m.end()) break;
            PCHECK(c, p.key == it->first && p.value == it->second, "judy-next", "next() gives %llx, it is %llx", (unsigned long long)p.key, (unsigned long long)it->first);
          } else {
            auto p = j.previous();
            PCHECK(c, (p.value != 0) == (it != m.begin()), "judy-prev", "previous(): existence");
            if (it == m.begin()) break;
            --it;
            PCHECK(c, p.key == it->first && p.value == it->second, "judy-prev", "previous() gives %llx, it is %llx", (unsigned long long)p.key, (unsigned long long)it->first);
          }
        }
        break;
      }
      default:
        c.trace("clear");
        j.clear();
        m.clear();
        PCHECK(c, j.isEmpty(), "judy-clear", "not empty after clear()");
        break;
    }
  }
  // full walks
  if (!m.empty()) {
    auto e = m.begin();
    auto p = j.begin();
    for (; e != m.end(); ++e, p = j.next())
      PCHECK(c, p.value == e->second && p.key == e->first, "judy-scan", "scan gives %llx, it is %llx", (unsigned long long)p.key, (unsigned long long)e->first);
    auto r = m.rbegin();
    p = j.end();
    for (; r != m.rend(); ++r, p = j.previous())
      PCHECK(c, p.value == r->second && p.key == r->first, "judy-scan", "backward scan gives %llx, it is %llx", (unsigned long long)p.key, (unsigned long long)r->first);
  }
  if (erased && (bulk || walked)) c.nontrivial();
  if (bulk) c.label("bulk");
}

using JL2 = judyL2Array<std::uint64_t, std::uint64_t>;
void judyl2(Ctx& c)
{
  std::unique_ptr<JL2> jp(new JL2);
  JL2& j = *jp;
  std::map<std::uint64_t, std::vector<std::uint64_t>> m;
  std::uint64_t serial = 1;
  std::size_t erased = 0, multi = 0;
  std::vector<Addr> near;
  while (c.more(80, 60)) {
    c.step();
    near.clear();
    for (auto& e : m) {
      near.push_back(e.first);
      if (near.size() > 64) break;
    }
    std::uint64_t k = gen_key(c, near);
    switch (c.weighted({8, 3, 3, 4, 3})) {
      case 0:
        c.trace("insert %llx", (unsigned long long)k);
        j.insert(k, serial);
        if (m.count(k)) ++multi;
        m[k].push_back(serial++);
        break;
      case 1: {
        JL2::vector v;
        std::size_t n = c.range(1, 4);
        for (std::size_t i = 0; i < n; ++i) v.push_back(serial++);
        bool over = c.chance(1, 2);
        c.trace("insert %zu values at %llx%s", n, (unsigned long long)k, over ? " (overwrite)" : "");
        if (!over && c.chance(1, 2)) j.insert(k, v);
        else j.insert(k, v, over);
        PCHECK(c, j.success(), "judy2-success", "success() is false after an insertion");
        if (over) m[k].clear();
        m[k].insert(m[k].end(), v.begin(), v.end());
        break;
      }
      case 2: {
        c.trace("remove %llx", (unsigned long long)k);
        bool r = j.removeEntry(k);
        PCHECK(c, r == (m.count(k) > 0), "judy2-remove", "removeEntry(%llx) returned %d", (unsigned long long)k, r);
        erased += m.erase(k);
        break;
      }
      case 3:
        PCHECK(c, j.isEmpty() == m.empty(), "judy2-empty", "isEmpty() is wrong with %zu keys", m.size());
        if (c.chance(1, 16)) {
          c.trace("clear");
          j.clear();
          m.clear();
        }
        break;
      default: {
        c.trace("scan");
        if (m.empty()) break;
        auto e = m.begin();
        auto p = j.begin();
        for (; e != m.end(); ++e, p = j.next())
          PCHECK(c, p.key == e->first && p.value && *p.value == e->second, "judy2-scan", "scan gives %llx, it is %llx", (unsigned long long)p.key, (unsigned long long)e->first);
        PCHECK(c, !p.value && !j.success(), "judy2-scan", "the scan does not end after the last key");
        auto re = m.rbegin();
        auto q = j.end();
        for (; re != m.rend(); ++re, q = j.previous())
          PCHECK(c, q.key == re->first && q.value && *q.value == re->second, "judy2-back", "the scan back gives %llx, it is %llx", (unsigned long long)q.key, (unsigned long long)re->first);
        PCHECK(c, !q.value, "judy2-back", "the scan back does not end before the first key");
        break;
      }
    }
    auto* f = j.find(k);
    auto e = m.find(k);
    PCHECK(c, (f != nullptr) == (e != m.end()) && j.success() == (e != m.end()), "judy2-find", "find(%llx): existence", (unsigned long long)k);
    if (f) PCHECK(c, *f == e->second, "judy2-find", "find(%llx) gives the wrong values", (unsigned long long)k);
    auto p = j.atOrBefore(k);
    auto ub = m.upper_bound(k);
    bool none = ub == m.begin();
    if (!none) --ub;
    PCHECK(c, (p.value != nullptr) == !none, "judy2-at-or-before", "atOrBefore(%llx): existence", (unsigned long long)k);
    if (!none) PCHECK(c, p.key == ub->first && *p.value == ub->second, "judy2-at-or-before", "atOrBefore(%llx) gives %llx", (unsigned long long)k, (unsigned long long)p.key);
    p = j.atOrAfter(k);
    auto lb = m.lower_bound(k);
    PCHECK(c, (p.value != nullptr) == (lb != m.end()), "judy2-at-or-after", "atOrAfter(%llx): existence", (unsigned long long)k);
    if (lb != m.end()) PCHECK(c, p.key == lb->first && *p.value == lb->second, "judy2-at-or-after", "atOrAfter(%llx) gives %llx", (unsigned long long)k, (unsigned long long)p.key);
  }
  PCHECK(c, j.isEmpty() == m.empty(), "judy2-empty", "isEmpty() is wrong with %zu keys", m.size());
  if (erased && multi) c.nontrivial();
}

// ---------------------------------------------------------------------------------------------------------
void fixedmalloc_of(Ctx& c, bool large)
{
  // objects hold a link while they are free, so they cannot be smaller than one
  std::size_t obj = c.chance(1, 2) ? 4 * c.range(1, 8) : 8 * c.range(1, 64);
  std::size_t per = c.chance(1, 2) ? c.range(1, 6) : c.range(1, 80);
  if (c.chance(1, 20)) per = 1000 + c.below(3000);
  if (large) { // a great many objects in one block, or a great many blocks
    obj = 4 * c.range(1, 3);
    per = c.chance(1, 2) ? c.range(60000, 140000) : c.range(1, 6);
  }
  c.trace("objects of %zu bytes, %zu per block", obj, per);
  std::unique_ptr<umpire::util::FixedMallocPool> pool(new umpire::util::FixedMallocPool(obj, per));
  struct A {
    std::uint32_t seed;
  };
  std::map<Addr, A> live;
  std::uint32_t serial = 1;
  std::size_t frees = 0, fills = 0, most = 0;
  auto pat = [](std::uint32_t s, std::size_t i) { return (unsigned char)(s * 31 + i * 7 + (s >> 8)); };
  auto verify = [&](Addr p, const A& a, const char* when) {
    unsigned char* q = (unsigned char*)p;
    for (std::size_t i = 0; i < obj; ++i)
      PCHECK(c, q[i] == pat(a.seed, i), "content", "%s: byte %zu of the live object %p changed", when, i, (void*)p);
  };
  auto take = [&] {
    bool full = live.size() == pool->numPools() * per;
    std::size_t blocks = pool->numPools();
    void* p = serial & 1 ? pool->allocate() : pool->allocate(obj);
    PCHECK(c, p != nullptr, "null", "allocate() returned null");
    PCHECK(c, pool->numPools() == blocks + full, "blocks", "with %zu of %zu objects live allocate() went from %zu to %zu blocks", live.size(),
           blocks * per, blocks, pool->numPools());
    Addr a = (Addr)p;
    auto nx = live.lower_bound(a);
    PCHECK(c, nx == live.end() || nx->first >= a + obj, "overlap", "object %p overlaps the live object %p", p, (void*)nx->first);
    if (nx != live.begin()) {
      --nx;
      PCHECK(c, nx->first + obj <= a, "overlap", "object %p overlaps the live object %p", p, (void*)nx->first);
    }
    A r{serial++};
    for (std::size_t i = 0; i < obj; ++i) ((unsigned char*)p)[i] = pat(r.seed, i);
    live[a] = r;
    if (full) ++fills;
  };
  auto give = [&](Addr a) {
    verify(a, live[a], "before deallocate");
    live.erase(a);
    pool->deallocate((void*)a);
    ++frees;
  };
  auto some = [&] {
    auto it = live.begin();
    std::advance(it, c.below(live.size()));
    return it->first;
  };
  while (c.more(large ? 14 : 150, 120)) {
    c.step();
    switch (large ? c.weighted({1, 1, 5, 4, 1, 1}) : c.weighted({6, 5, 3, 3, 1, 1})) {
      case 0: c.trace("allocate"); take(); break;
      case 1:
        if (live.empty()) break;
        {
          Addr a = some();
          c.trace("deallocate %p", (void*)a);
          give(a);
        }
        break;
      case 2: { // fill the current blocks completely
        std::size_t cap = pool->numPools() * per;
        std::size_t n = std::min<std::size_t>(cap - live.size() + c.below(3), large ? 300000 : 5000);
        if (large && per < 10) n = c.range(100, 500) * per;
        c.trace("allocate %zu", n);
        for (std::size_t i = 0; i < n; ++i) take();
        break;
      }
      case 3: {
        std::size_t k = c.range(1, 5), i = 0;
        std::vector<Addr> v;
        for (auto& e : live)
          if (i++ % k == 0) v.push_back(e.first);
        if (c.chance(1, 2)) std::reverse(v.begin(), v.end());
        c.trace("deallocate every %zu", k);
        for (Addr a : v) give(a);
        break;
      }
      case 4:
        for (auto& e : live) verify(e.first, e.second, "during the history");
        break;
      default: { // a pointer of somebody else
        long x = 0;
        bool threw = false;
        c.trace("deallocate a foreign pointer");
        try {
          pool->deallocate(&x);
        } catch (const umpire::runtime_error&) {
          threw = true;
        }
        PCHECK(c, threw, "foreign", "deallocating a pointer the pool never returned did not throw");
        break;
      }
    }
    most = std::max(most, live.size());
    if (most > (large ? 300000 : 20000)) break;
  }
  for (auto& e : live) verify(e.first, e.second, "at the end");
  if (frees && fills) c.nontrivial();
  if (fills) c.label("block-filled");
  if (pool->numPools() > 1) c.label("several-blocks");
}

void fixedmalloc(Ctx& c) { fixedmalloc_of(c, false); }
void fixedmalloc_large(Ctx& c) { fixedmalloc_of(c, true); }

void bits_case(Ctx& c)
{
  std::size_t n = 0;
  while (c.more(200, 500)) {
    c.step();
    unsigned v = 0;
    switch (c.below(4)) {
      case 0: v = 1u << c.below(32); break;
      case 1: v = (unsigned)c.below(1ull << 32) << c.below(32); break;
      case 2: v = ~0u << c.below(32); break;
      default: v = (unsigned)c.below(1ull << 32); break;
    }
    int want = 0;
    for (int i = 0; i < 32 && !want; ++i)
      if (v >> i & 1) want = i + 1;
    int got = umpire::util::find_first_set((int)v);
    PCHECK(c, got == want, "find-first-set", "find_first_set(%x) is %d, it should be %d", v, got, want);
    ++n;
  }
  if (n > 10) c.nontrivial();
}


// FixedSizePool: the block headers of DynamicSizePool. Its memory comes from two counting allocators.
template <int TAG>
struct Counting {
  static std::map<void*, std::size_t>& live()
  {
    static std::map<void*, std::size_t> m;
    return m;
  }
  static void* allocate(std::size_t n)
  {
    void* p = std::malloc(n);
    live()[p] = n;
    return p;
  }
  static bool& bad()
  {
    static bool b = false;
    return b;
  }
  static void deallocate(void* p)
  {
    if (!live().erase(p)) bad() = true;
    else std::free(p);
  }
};

template <std::size_t SZ, int NP>
void fixedsize_of(Ctx& c)
{
  struct Obj {
    unsigned char b[SZ];
  };
  using D = Counting<1>;
  using H = Counting<2>;
  const std::size_t per = NP * sizeof(unsigned int) * 8;
  c.trace("objects of %zu bytes, %zu per block", SZ, per);
  D::live().clear();
  H::live().clear();
  std::unique_ptr<FixedSizePool<Obj, D, H, NP>> pool(new FixedSizePool<Obj, D, H, NP>());
  std::map<Obj*, std::uint32_t> live;
  std::uint32_t serial = 1;
  std::size_t fills = 0, frees = 0;
  auto check = [&](Obj* o, std::uint32_t s) {
    for (std::size_t i = 0; i < SZ; ++i) PCHECK(c, o->b[i] == (unsigned char)(s * 31 + i), "content", "byte %zu of a live object changed", i);
  };
  auto take = [&] {
    std::size_t blocks = pool->numPools();
    bool full = live.size() == blocks * per;
    Obj* o = pool->allocate();
    PCHECK(c, o, "null", "allocate() returned null");
    PCHECK(c, pool->numPools() == blocks + full, "blocks", "with %zu of %zu objects live allocate() went from %zu to %zu blocks", live.size(), blocks * per, blocks, pool->numPools());
    auto nx = live.lower_bound(o);
    bool bad = nx != live.end() && nx->first < o + 1;
    if (nx != live.begin()) bad = bad || std::prev(nx)->first + 1 > o;
    PCHECK(c, !bad, "overlap", "an object overlaps a live one");
    bool in = false;
    for (auto& b : D::live()) in = in || ((char*)b.first <= (char*)o && (char*)(o + 1) <= (char*)b.first + b.second);
    PCHECK(c, in, "outside", "an object lies outside the blocks");
    for (std::size_t i = 0; i < SZ; ++i) o->b[i] = (unsigned char)(serial * 31 + i);
    live[o] = serial++;
    fills += full;
  };
  auto give = [&](Obj* o) {
    check(o, live[o]);
    live.erase(o);
    pool->deallocate(o);
    ++frees;
  };
  while (c.more(80, 60)) {
    c.step();
    switch (c.weighted({6, 5, 3, 3, 1})) {
      case 0: c.trace("allocate"); take(); break;
      case 1:
        if (!live.empty()) {
          auto it = live.begin();
          std::advance(it, c.below(live.size()));
          c.trace("deallocate");
          give(it->first);
        }
        break;
      case 2: {
        std::size_t n = pool->numPools() * per - live.size() + c.below(3);
        if (live.size() + n > 3000) break;
        c.trace("allocate %zu", n);
        for (std::size_t i = 0; i < n; ++i) take();
        break;
      }
      case 3: {
        std::size_t k = c.range(1, 5), i = 0;
        std::vector<Obj*> v;
        for (auto& e : live)
          if (i++ % k == 0) v.push_back(e.first);
        if (c.chance(1, 2)) std::reverse(v.begin(), v.end());
        c.trace("deallocate every %zu", k);
        for (auto* a : v) give(a);
        break;
      }
      default: {
        Obj x;
        bool threw = false;
        c.trace("deallocate a foreign pointer");
        try {
          pool->deallocate(&x);
        } catch (const std::bad_alloc&) {
          threw = true;
        }
        PCHECK(c, threw, "foreign", "a foreign pointer was accepted");
      }
    }
    PCHECK(c, pool->getCurrentSize() == live.size() * SZ, "size", "getCurrentSize is %zu with %zu objects of %zu bytes live", pool->getCurrentSize(), live.size(), SZ);
    PCHECK(c, pool->getActualSize() == pool->numPools() * pool->poolSize() && pool->numPools() == D::live().size(), "size", "getActualSize is %zu with %zu blocks of %zu bytes",
           pool->getActualSize(), D::live().size(), pool->poolSize());
  }
  for (auto& e : live) check(e.first, e.second);
  pool.reset();
  PCHECK(c, D::live().empty() && H::live().empty() && !D::bad() && !H::bad(), "leak", "%zu blocks and %zu headers are left after the pool", D::live().size(), H::live().size());
  if (fills && frees) c.nontrivial();
}

void fixedsize(Ctx& c)
{
  std::cerr.setstate(std::ios::failbit); // it complains there about foreign pointers
  switch (c.below(6)) {
    case 0: fixedsize_of<8, 1>(c); break;
    case 1: fixedsize_of<32, 1>(c); break;
    case 2: fixedsize_of<24, 2>(c); break;
    case 3: fixedsize_of<1, 3>(c); break;
    case 4: fixedsize_of<40, 4>(c); break;
    default: fixedsize_of<32, 64>(c); break;
  }
  std::cerr.clear();
}

} // namespace

int main(int argc, char** argv)
{
  Settings st;
  std::string s = arg(argc, argv, "--suite");
  if (s == "fixedmalloc")
    return run_main(argc, argv,
                    {{"pool", 40, 16, fixedmalloc, "a block was filled completely and an object was given back"},
                     {"pool-large", 3, 1, fixedmalloc_large, "the same with tens of thousands of objects in a block, or hundreds of blocks"},
                     {"headers", 25, 16, fixedsize, "a block was filled completely and an object was given back"},
                     {"bits", 5, 16, bits_case, "more than ten words"}},
                    st);
  return run_main(argc, argv,
                  {{"memorymap", 40, 8, memorymap, "an entry was erased and there was a bulk insert or a kept iterator was advanced"},
                   {"memorymap-large", 4, 1, memorymap_large, "every case: at least a thousand keys"},
                   {"judyl", 30, 8, judyl, "a key was removed and there was a bulk insert or a walk"},
                   {"judyl2", 10, 8, judyl2, "a key held several values and one was removed"}},
                  st);
}
