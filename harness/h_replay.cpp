// C20: the event log (UMPIRE_REPLAY) says what happened, survives a round trip through the store, and replays to the
// same per-allocator statistics.
#include "pbt.hpp"

#include <algorithm>
#include <map>
#include <memory>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/config.hpp"
#include "umpire/event/event.hpp"
#ifdef UMPIRE_ENABLE_SQLITE_EXPERIMENTAL
#include "umpire/event/sqlite_database.hpp"
#else
#include "umpire/event/json_file_store.hpp"
#endif
#include "umpire/json/json.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/wrap_allocator.hpp"

#include "../tools/replay/ReplayInterpreter.hpp"
#include "../tools/replay/ReplayOptions.hpp"

using namespace pbt;
using nlohmann::json;
using umpire::Allocator;
namespace st = umpire::strategy;
namespace ev = umpire::event;

namespace {

// ---------------------------------------------------------------------------------------------------- text
const std::vector<std::string>& atoms()
{
  static const std::vector<std::string> v{"a", "b", "pool", "_", "0", " ", "\"", "\\", "%s", "%n", "\n", "\t", "{", "}", ":", ",", "/",
                                          "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "'", "<", "_base", "\\u0000"};
  return v;
}
const std::vector<std::string>& bad_atoms()
{
  static const std::vector<std::string> v{"\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\x80"};
  return v;
}
std::string text(Ctx& c, std::size_t max, bool bad = false)
{
  std::string s;
  std::size_t n = c.below(max + 1);
  for (std::size_t i = 0; i < n; ++i) s += bad && c.chance(1, 4) ? c.pick(bad_atoms()) : c.pick(atoms());
  return s;
}

std::string ptr_string(const void* p)
{
  char b[40];
  snprintf(b, sizeof b, "%p", p);
  return b;
}
unsigned long long num(const std::string& s)
{
  if (s == "(nil)" || s == "0") return 0;
  return strtoull(s.c_str(), nullptr, 16);
}
std::string show(const std::string& s)
{
  std::string o;
  for (unsigned char ch : s) {
    char b[8];
    if (ch < 32 || ch > 126) {
      snprintf(b, sizeof b, "\\x%02x", ch);
      o += b;
    } else
      o += (char)ch;
  }
  return o;
}

// ---------------------------------------------------------------------------------------------------- store round trip
#ifdef UMPIRE_ENABLE_SQLITE_EXPERIMENTAL
using Store = ev::sqlite_database;
Store* open_for_reading(const std::string& path) { return new Store{path}; }
#else
using Store = ev::json_file_store;
Store* open_for_reading(const std::string& path) { return new Store{path, true}; }
#endif
void store(Ctx& c)
{
  struct Want {
    std::string name;
    ev::category cat;
    std::map<std::string, std::string> sa, tags;
    std::map<std::string, std::uintmax_t> na;
    long long ns;
    bool bad;
  };
  std::vector<Want> want;
  static unsigned files = 0;
  std::string path = c.scratch() + "/s" + std::to_string(files++) + ".stats";
  bool badcase = c.chance(1, 6);
  auto when = [&] {
    return std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(
        std::chrono::nanoseconds((long long)c.below(1ull << 62))));
  };
  auto ns = [](std::chrono::system_clock::time_point t) {
    return (long long)std::chrono::time_point_cast<std::chrono::nanoseconds>(t).time_since_epoch().count();
  };
  auto address = [&]() -> void* { return c.chance(1, 10) ? nullptr : (void*)(std::uintptr_t)(1 + c.below(1ull << 47)); };
  auto size = [&]() -> std::size_t {
    switch (c.weighted({5, 1, 1, 1})) {
      case 0: return c.below(100000);
      case 1: return ~std::size_t{0} - c.below(3);
      case 2: return (std::size_t{1} << 63) + c.below(3) - 1;
      default: return c.below(~0ull);
    }
  };
  bool special = false;
  {
    auto* out = new Store{path}; // the store never closes its file; the process does
    while (c.more(30, 16)) {
      c.step();
      Want w;
      w.cat = ev::category::operation;
      w.tags = {{"replay", "true"}};
      w.bad = false;
      auto t = when();
      w.ns = ns(t);
      try {
        switch (c.weighted({4, 3, 3, 2})) {
          case 0: {
            ev::event e;
            e.name = text(c, 6, badcase);
            e.cat = c.pick(std::vector<ev::category>{ev::category::operation, ev::category::statistic, ev::category::metadata});
            unsigned n = c.below(4);
            for (unsigned i = 0; i < n; ++i) e.string_args[text(c, 3, badcase)] = text(c, 6, badcase);
            n = c.below(4);
            for (unsigned i = 0; i < n; ++i) e.numeric_args[text(c, 3)] = size();
            n = c.below(3);
            for (unsigned i = 0; i < n; ++i) e.tags[text(c, 3)] = text(c, 6, badcase);
            e.timestamp = t;
            w.name = e.name;
            w.cat = e.cat;
            w.sa = e.string_args;
            w.na = e.numeric_args;
            w.tags = e.tags;
            w.bad = badcase;
            c.trace("event %s", show(e.name).c_str());
            out->insert(e);
            break;
          }
          case 1: {
            ev::allocate e;
            e.size = size();
            e.ref = address();
            e.ptr = address();
            e.timestamp = t;
            w.name = "allocate";
            w.na["size"] = e.size;
            w.sa = {{"allocator_ref", ptr_string(e.ref)}, {"pointer", ptr_string(e.ptr)}};
            c.trace("allocate %zu", e.size);
            out->insert(e);
            break;
          }
          case 2: {
            ev::named_allocate e;
            e.size = size();
            e.ref = address();
            e.ptr = address();
            e.name = text(c, 8, badcase);
            if (c.chance(1, 10)) e.name += std::string(c.below(1500), 'n');
            e.timestamp = t;
            w.name = "named_allocate";
            w.na["size"] = e.size;
            w.sa = {{"allocator_ref", ptr_string(e.ref)}, {"pointer", ptr_string(e.ptr)}, {"allocation_name", e.name}};
            w.bad = badcase;
            special |= e.name.find_first_of("\"\\\n\t\x01") != std::string::npos;
            c.trace("named_allocate %zu %s", e.size, show(e.name).c_str());
            out->insert(e);
            break;
          }
          default: {
            ev::deallocate e;
            e.ref = address();
            e.ptr = address();
            e.timestamp = t;
            w.name = "deallocate";
            w.sa = {{"allocator_ref", ptr_string(e.ref)}, {"pointer", ptr_string(e.ptr)}};
            c.trace("deallocate");
            out->insert(e);
          }
        }
      } catch (std::exception& e) {
        c.fail("store-insert", "writing an event threw: %s", e.what());
      }
      want.push_back(w);
    }
    fflush(nullptr);
  }
  if (want.empty()) return;
  std::vector<ev::event> got;
  try {
    got = open_for_reading(path)->get_events();
  } catch (std::exception& e) {
    c.fail("store-read", "reading back %zu events failed: %s", want.size(), e.what());
  }
  PCHECK(c, got.size() == want.size(), "store-count", "%zu events written, %zu read", want.size(), got.size());
  for (std::size_t i = 0; i < want.size(); ++i) {
    auto& w = want[i];
    auto& g = got[i];
    PCHECK(c, g.cat == w.cat, "store-category", "event %zu", i);
    PCHECK(c, g.numeric_args == w.na, "store-numbers", "event %zu (%s): numeric arguments differ", i, show(w.name).c_str());
    PCHECK(c, ns(g.timestamp) == w.ns, "store-time", "event %zu: %lld read for %lld", i, ns(g.timestamp), w.ns);
    if (w.bad) {
      PCHECK(c, g.tags.size() == w.tags.size(), "store-tags", "event %zu", i);
      continue;
    }
    PCHECK(c, g.name == w.name, "store-name", "event %zu: %s read for %s", i, show(g.name).c_str(), show(w.name).c_str());
    PCHECK(c, g.string_args == w.sa, "store-strings", "event %zu (%s): string arguments differ", i, show(w.name).c_str());
    PCHECK(c, g.tags == w.tags, "store-tags", "event %zu", i);
  }
  if (want.size() >= 2) c.nontrivial();
  c.label(badcase ? "invalid text" : "valid text");
  if (special) c.label("name needs escaping");
}

// ---------------------------------------------------------------------------------------------------- log and replay
enum K { HOSTK, QUICK, LIST, FIXED, MIXED, MONO, SLOT, LIMIT, TSAFE, NAMED, NK };
const char* kname[] = {"HOST", "QuickPool", "DynamicPoolList", "FixedPool", "MixedPool", "Monotonic", "SlotPool", "SizeLimiter", "ThreadSafe", "Named"};

struct Al {
  Allocator a;
  int kind;
  int parent{-1};
  std::string name;
  std::size_t fixed{0}, mono{0};
  bool tracked{true};
  bool children{false};
};
struct Live {
  std::size_t n;
  int al;
  unsigned seq{0}; // choices go by age, not by address
};
// what the first process did, one line per operation, read back by the checking process
struct Script {
  json ops = json::array();
  json state;
};

struct First {
  Ctx& c;
  std::string dir;
  std::vector<Al> al;
  std::map<char*, Live> live;
  std::map<char*, std::size_t> external;
  std::vector<std::unique_ptr<char[]>> ext_mem;
  int dflt{0};
  bool failed{false};
  bool hidden{false}; // a pool was refused memory by its parent: it may have given blocks back, which no log of requests shows
  json ops = json::array();
  std::set<std::string> kinds;
  int special{0};

  // pool and heuristic to use instead of the default ones, as the tool's options ask for
  std::string pool_to_use, heuristic, out_name{"/script.json"};
  int parm{0};
  bool undecided{false}; // what the tool does with the options is its own choice
  unsigned age{0};

  explicit First(Ctx& ctx, const std::string& d) : c(ctx), dir(d) {}

  template <typename P>
  Allocator make_pool(bool tracked, const std::string& n, Allocator par, unsigned argc, std::size_t a1, std::size_t a2, std::size_t a3)
  {
    if (!heuristic.empty() && tracked) {
      st::PoolCoalesceHeuristic<P> h = heuristic == "Block"            ? P::blocks_releasable(parm)
                                       : heuristic == "Block_hwm"      ? P::blocks_releasable_hwm(parm)
                                       : heuristic == "FreePercentage" ? P::percent_releasable(parm)
                                                                       : P::percent_releasable_hwm(parm);
      return make<P>(true, n, par, argc > 0 ? a1 : (std::size_t)P::s_default_first_block_size, argc > 1 ? a2 : (std::size_t)P::s_default_next_block_size,
                     argc > 2 ? a3 : (std::size_t)P::s_default_alignment, h);
    }
    undecided = undecided || !heuristic.empty();
    return argc == 0   ? make<P>(tracked, n, par)
           : argc == 1 ? make<P>(tracked, n, par, a1)
           : argc == 2 ? make<P>(tracked, n, par, a1, a2)
                       : make<P>(tracked, n, par, a1, a2, a3);
  }

  void mark() { umpire::mark_event("op " + std::to_string(ops.size())); }
  // one operation: what the log has to contain (in order, as a subsequence) and the live set afterwards
  void done(json expect, bool exact)
  {
    json l = json::array();
    for (auto& x : live) l.push_back({ptr_string(x.first), ref(x.second.al), x.second.n});
    ops.push_back({{"expect", expect}, {"exact", exact}, {"live", l}});
  }
  void refused(int i)
  {
    failed = true;
    for (; i >= 0; i = al[i].parent)
      if (al[i].kind == QUICK || al[i].kind == LIST || al[i].kind == MIXED || al[i].kind == FIXED) hidden = true;
  }
  std::string ref(int i) { return ptr_string(al[i].a.getAllocationStrategy()); }

  std::string fresh_name(int k, unsigned i)
  {
    std::string n = std::string(kname[k]) + std::to_string(i);
    if (c.chance(1, 4)) n += text(c, 4);
    if (c.chance(1, 12) && i) { // the legacy suffix the tool strips
      n = al[1 + c.below(al.size() - 1)].name + "_base";
      for (auto& x : al)
        if (x.name == n) n += std::to_string(i);
    }
    if (c.chance(1, 16)) { // up to and past what the tool has room for
      std::size_t len = c.chance(1, 3) ? 511 : c.chance(1, 8) ? 512 + c.below(900) : 200 + c.below(312);
      while (n.size() < len) n += (char)('a' + n.size() % 26);
    }
    return n;
  }

  template <typename S, typename... A>
  Allocator make(bool tracked, const std::string& n, A... a)
  {
    auto& rm = umpire::ResourceManager::getInstance();
    return tracked ? rm.makeAllocator<S, true>(n, a...) : rm.makeAllocator<S, false>(n, a...);
  }

  void build(unsigned i)
  {
    std::vector<int> parents;
    for (int j = 0; j < (int)al.size(); ++j)
      if (!al[j].fixed && al[j].kind != SLOT && al[j].kind != MONO) parents.push_back(j);
    int p = c.pick(parents);
    Allocator par = al[p].a;
    int k = 1 + (int)c.below(NK - 1);
    Al x{par, k, p};
    x.name = fresh_name(k, i);
    for (auto& y : al)
      if (y.name == x.name) return;
    // without introspection an allocator cannot tell its strategy the size of what is freed
    bool up = k == QUICK || k == LIST || k == FIXED || k == MIXED;
    x.tracked = !(up && c.chance(1, 6));
    unsigned argc = 0;
    json args = json::object();
    std::size_t a1 = 0, a2 = 0, a3 = 0;
    mark();
    try {
    switch (k) {
      case QUICK:
      case LIST:
        argc = c.below(4);
        if (al[p].kind == LIMIT && argc == 0) argc = 2;
        a1 = c.size(4000), a2 = c.size(1000), a3 = std::size_t{8} << c.below(4);
        if (pool_to_use == "Quick") x.kind = QUICK;
        if (pool_to_use == "List") x.kind = LIST;
        x.a = x.kind == QUICK ? make_pool<st::QuickPool>(x.tracked, x.name, par, argc, a1, a2, a3) : make_pool<st::DynamicPoolList>(x.tracked, x.name, par, argc, a1, a2, a3);
        break;
      case FIXED:
        x.fixed = a1 = 8 * c.range(1, 10);
        argc = 1 + c.below(2);
        a2 = c.range(1, 70);
        x.a = argc == 1 ? make<st::FixedPool>(x.tracked, x.name, par, a1) : make<st::FixedPool>(x.tracked, x.name, par, a1, a2);
        break;
      case MIXED:
        argc = c.below(8);
        {
          std::size_t lo = std::size_t{8} << c.below(4), hi = lo << c.range(1, 4), mx = hi << c.range(4, 8), mult = 16, ini = c.size(4000), mn = c.size(1000),
                      alg = std::size_t{8} << c.below(3);
          switch (argc) {
            case 0: x.a = make<st::MixedPool>(x.tracked, x.name, par); break;
            case 1: x.a = make<st::MixedPool>(x.tracked, x.name, par, lo); break;
            case 2: x.a = make<st::MixedPool>(x.tracked, x.name, par, lo, hi); break;
            case 3: x.a = make<st::MixedPool>(x.tracked, x.name, par, lo, hi, mx); break;
            case 4: x.a = make<st::MixedPool>(x.tracked, x.name, par, lo, hi, mx, mult); break;
            case 5: x.a = make<st::MixedPool>(x.tracked, x.name, par, lo, hi, mx, mult, ini); break;
            case 6: x.a = make<st::MixedPool>(x.tracked, x.name, par, lo, hi, mx, mult, ini, mn); break;
            default: x.a = make<st::MixedPool>(x.tracked, x.name, par, lo, hi, mx, mult, ini, mn, alg); break;
          }
        }
        break;
      case MONO:
        argc = 1;
        a1 = c.size(8000);
        x.mono = a1;
        x.a = make<st::MonotonicAllocationStrategy>(x.tracked, x.name, par, a1);
        break;
      case SLOT:
        argc = 1;
        a1 = c.range(1, 12);
        x.a = make<st::SlotPool>(x.tracked, x.name, par, a1);
        break;
      case LIMIT:
        argc = 1;
        a1 = (c.chance(1, 3) ? 3 * VAST : 0) + 500 + c.size(200000);
        x.a = make<st::SizeLimiter>(x.tracked, x.name, par, a1);
        break;
      case TSAFE: x.a = make<st::ThreadSafeAllocator>(x.tracked, x.name, par); break;
      default: x.a = make<st::NamedAllocationStrategy>(x.tracked, x.name, par); break;
    }
    } catch (umpire::runtime_error&) {
      c.trace("%s over '%s' refused", kname[k], show(al[p].name).c_str());
      failed = hidden = true;
      done(json::array(), true);
      return;
    }
    c.trace("%s '%s' over '%s' (%u arguments: %zu %zu %zu)%s", kname[k], show(x.name).c_str(), show(al[p].name).c_str(), argc, a1, a2, a3,
            x.tracked ? "" : " untracked");
    al[p].children = true;
    al.push_back(x);
    kinds.insert(kname[k]);
    json e{{"name", "make_allocator"}, {"allocator_ref", ref((int)al.size() - 1)}, {"tag_name", x.name}, {"arg0", al[p].name}, {"introspection", x.tracked ? 1 : 0}};
    done(json::array({e}), true);
  }

  std::size_t request(int i)
  {
    if (al[i].fixed) return al[i].fixed;
    if (c.chance(1, 24)) return 0;
    if (vast && (al[i].kind == HOSTK || al[i].kind == LIMIT) && c.chance(1, 8)) return VAST + c.size(3000);
    return c.size(al[i].mono ? al[i].mono / 4 + 1 : 3000);
  }

  static constexpr std::size_t VAST = std::size_t{1} << 32;
  bool vast{false};
  void fill(char* p, std::size_t n) { memset(p, 0x5a, std::min<std::size_t>(n, 1 << 20)); }

  void allocate()
  {
    int i = (int)c.below(al.size());
    std::size_t n = request(i);
    bool named = c.chance(1, 5);
    std::string nm = named ? text(c, 5) : "";
    mark();
    char* p;
    try {
      p = static_cast<char*>(named ? al[i].a.allocate(nm, n) : al[i].a.allocate(n));
    } catch (umpire::runtime_error&) {
      c.trace("'%s' allocate %zu failed", show(al[i].name).c_str(), n);
      refused(i);
      done(json::array(), true);
      return;
    }
    fill(p, n);
    c.trace("'%s' %sallocate %zu %s", show(al[i].name).c_str(), named ? "named " : "", n, show(nm).c_str());
    live[p] = {n, i, age++};
    json e{{"name", named ? "named_allocate" : "allocate"}, {"allocator_ref", ref(i)}, {"pointer", ptr_string(p)}, {"size", n}};
    if (named) e["allocation_name"] = nm;
    done(json::array({e}), true);
  }

  std::map<char*, Live>::iterator any_live(bool tracked, bool small = true)
  {
    std::vector<std::map<char*, Live>::iterator> v;
    for (auto it = live.begin(); it != live.end(); ++it)
      if ((!tracked || al[it->second.al].tracked) && (!small || it->second.n < VAST)) v.push_back(it);
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a->second.seq < b->second.seq; });
    return v.empty() ? live.end() : c.pick(v);
  }

  void deallocate()
  {
    unsigned how = c.weighted({12, 1, 1, 1});
    if (how == 1) {
      int i = (int)c.below(al.size());
      mark();
      al[i].a.deallocate(nullptr);
      c.trace("deallocate null");
      done(json::array(), false);
      return;
    }
    auto it = any_live(how != 0, false);
    if (it == live.end()) return;
    char* p = it->first;
    int i = it->second.al;
    if (how == 2) { // wrong allocator: refused
      int w = (int)c.below(al.size());
      if (w == i || !al[w].tracked) return;
      mark();
      try {
        al[w].a.deallocate(p);
        c.fail("wrong-allocator", "deallocation through another allocator succeeded");
      } catch (umpire::runtime_error&) {
      }
      c.trace("refused deallocate");
      done(json::array(), false);
      return;
    }
    if (how == 3) { // interior pointer: refused
      if (it->second.n < 2) return;
      mark();
      try {
        al[i].a.deallocate(p + 1);
        c.fail("interior", "deallocation of an interior pointer succeeded");
      } catch (umpire::runtime_error&) {
      }
      c.trace("refused deallocate of interior pointer");
      done(json::array(), false);
      return;
    }
    mark();
    c.trace("'%s' deallocate", show(al[i].name).c_str());
    al[i].a.deallocate(p);
    live.erase(it);
    done(json::array({json{{"name", "deallocate"}, {"allocator_ref", ref(i)}, {"pointer", ptr_string(p)}}}), true);
  }

  void reallocate()
  {
    auto& rm = umpire::ResourceManager::getInstance();
    bool null = c.chance(1, 5);
    auto it = any_live(true);
    if (!null && it == live.end()) return;
    unsigned form = c.below(2);
    char* p = null ? nullptr : it->first;
    int i = null ? (form ? (int)c.below(al.size()) : dflt) : it->second.al;
    if (!null && form && c.chance(1, 6)) i = (int)c.below(al.size()); // may be the wrong one: refused
    bool wrong = !null && i != it->second.al;
    if (!al[i].tracked) return;
    std::size_t n = request(i);
    char* at = p;
    if (!null && it->second.n > 1 && c.chance(1, 12)) at = p + 1; // refused
    mark();
    char* q;
    try {
      q = static_cast<char*>(form ? rm.reallocate(at, n, al[i].a) : rm.reallocate(at, n));
    } catch (umpire::runtime_error&) {
      c.trace("'%s' reallocate %s to %zu failed", show(al[i].name).c_str(), at == p ? (null ? "null" : wrong ? "another's" : "its own") : "interior", n);
      if (at == p && !wrong) refused(i);
      c.label("failed reallocate");
      done(json::array(), false);
      return;
    }
    PCHECK(c, !wrong && at == p, "reallocate-accepted", "reallocate of a foreign or interior pointer succeeded");
    fill(q, n);
    c.trace("'%s' reallocate %s to %zu", show(al[i].name).c_str(), null ? "null" : "own", n);
    if (!null) live.erase(it);
    live[q] = {n, i, age++};
    special |= 1;
    done(json::array({json{{"name", "reallocate"}, {"allocator_ref", ref(i)}, {"current_ptr", ptr_string(p)}, {"size", n}},
                      json{{"name", "reallocate"}, {"allocator_ref", ref(i)}, {"new_ptr", ptr_string(q)}}}),
         false);
  }

  void move()
  {
    auto& rm = umpire::ResourceManager::getInstance();
    auto it = any_live(true);
    if (it == live.end()) return;
    int d = (int)c.below(al.size());
    if (!al[d].tracked || (al[d].fixed && al[d].fixed < it->second.n) || it->second.n == 0) return;
    if (al[d].fixed && al[d].fixed != it->second.n) return;
    mark();
    char* q;
    try {
      q = static_cast<char*>(rm.move(it->first, al[d].a));
    } catch (umpire::runtime_error&) {
      c.trace("move failed");
      refused(d);
      done(json::array(), false);
      return;
    }
    c.trace("move to '%s'", show(al[d].name).c_str());
    char* p = it->first;
    Live l = it->second;
    live.erase(it);
    json e{{"name", "move"}, {"allocator_ref", ref(d)}, {"ptr", ptr_string(p)}};
    if (l.al != d) e["result"] = ptr_string(q);
    l.al = d;
    live[q] = l;
    special |= 2;
    done(json::array({e}), false);
  }

  void data()
  {
    auto& rm = umpire::ResourceManager::getInstance();
    auto a = any_live(true), b = any_live(true);
    if (a == live.end() || a->second.n == 0 || b->second.n == 0) return;
    if (c.below(2)) {
      std::size_t off = c.below(a->second.n), len = c.below(a->second.n - off + 1), did = len ? len : a->second.n - off;
      int v = (int)c.below(256);
      mark();
      rm.memset(a->first + off, v, len);
      c.trace("memset %zu at %zu", len, off);
      done(json::array({json{{"name", "memset"}, {"allocator_ref", ref(a->second.al)}, {"ptr", ptr_string(a->first + off)}, {"value", v}, {"size", did}}}), true);
    } else {
      if (a == b) return;
      std::size_t so = c.below(a->second.n), dof = c.below(b->second.n);
      std::size_t room = std::min(a->second.n - so, b->second.n - dof);
      std::size_t len = c.range(1, room);
      mark();
      rm.copy(b->first + dof, a->first + so, len);
      c.trace("copy %zu", len);
      done(json::array({json{{"name", "copy"},
                             {"src", ptr_string(a->first + so)},
                             {"dst", ptr_string(b->first + dof)},
                             {"src_offset", so},
                             {"dst_offset", dof},
                             {"size", len},
                             {"src_allocator_ref", ref(a->second.al)},
                             {"dst_allocator_ref", ref(b->second.al)}}}),
           true);
    }
  }

  void pool()
  {
    int i = (int)c.below(al.size());
    if (al[i].kind == HOSTK || al[i].kind == MIXED) return;
    bool co = c.below(2) && (al[i].kind == QUICK || al[i].kind == LIST);
    mark();
    if (co) {
      c.trace("coalesce '%s'", show(al[i].name).c_str());
      if (al[i].kind == QUICK)
        umpire::util::unwrap_allocator<st::QuickPool>(al[i].a)->coalesce();
      else
        umpire::util::unwrap_allocator<st::DynamicPoolList>(al[i].a)->coalesce();
      special |= 4;
      done(json::array({json{{"name", "coalesce"}, {"tag_name", al[i].name}}}), true);
    } else {
      c.trace("release '%s'", show(al[i].name).c_str());
      al[i].a.release();
      special |= 8;
      done(json::array({json{{"name", "release"}, {"allocator_ref", ref(i)}, {"tag_name", al[i].name}}}), true);
    }
  }

  unsigned ext_serial{0};
  void other()
  {
    auto& rm = umpire::ResourceManager::getInstance();
    if (c.below(2)) {
      int i = (int)c.below(al.size());
      mark();
      rm.setDefaultAllocator(al[i].a);
      dflt = i;
      c.trace("default '%s'", show(al[i].name).c_str());
      done(json::array({json{{"name", "set_default_allocator"}, {"allocator_ref", ref(i)}, {"tag_name", al[i].name}}}), true);
    } else if (external.empty() || c.below(2)) {
      std::size_t n = c.range(1, 200);
      char* p;
      if (c.chance(1, 3)) { // only the record matters: a huge range at an address nobody uses
        n = (std::size_t{1} << c.range(31, 40)) + c.below(1000);
        p = reinterpret_cast<char*>(0x200000000000ULL + 0x20000000000ULL * (ext_serial++ % 16));
        if (external.count(p)) return;
      } else {
        ext_mem.emplace_back(new char[n]);
        p = ext_mem.back().get();
      }
      mark();
      umpire::register_external_allocation(p, {p, n, al[0].a.getAllocationStrategy()});
      external[p] = n;
      c.trace("register external %zu", n);
      done(json::array({json{{"name", "register_external_allocation"}, {"allocator_ref", ref(0)}, {"pointer", ptr_string(p)}, {"size", n}}}), true);
    } else {
      auto it = external.begin();
      mark();
      umpire::deregister_external_allocation(it->first);
      external.erase(it);
      c.trace("deregister external");
      done(json::array({json{{"name", "deregister_external_allocation"}}}), true);
    }
  }

  static json stats(Allocator a, int kind)
  {
    json s{{"current", a.getCurrentSize()}, {"hwm", a.getHighWatermark()}, {"actual", a.getActualSize()}, {"count", a.getAllocationCount()}};
    if (kind == QUICK) {
      auto q = umpire::util::unwrap_allocator<st::QuickPool>(a);
      s["blocks"] = q->getTotalBlocks();
      s["releasable"] = q->getReleasableBlocks();
      s["releasable_size"] = q->getReleasableSize();
      s["blocks_in_pool"] = q->getBlocksInPool();
      s["largest"] = q->getLargestAvailableBlock();
    } else if (kind == LIST) {
      auto q = umpire::util::unwrap_allocator<st::DynamicPoolList>(a);
      s["blocks"] = q->getTotalBlocks();
      s["releasable"] = q->getReleasableBlocks();
      s["releasable_size"] = q->getReleasableSize();
      s["blocks_in_pool"] = q->getBlocksInPool();
      s["largest"] = q->getLargestAvailableBlock();
    }
    return s;
  }

  void run()
  {
    auto& rm = umpire::ResourceManager::getInstance();
    al.push_back({rm.getAllocator("HOST"), HOSTK});
    al[0].name = "HOST";
    vast = c.chance(1, 10);
    unsigned n = 1 + (unsigned)c.below(6);
    for (unsigned i = 0; i < n; ++i) {
      c.span();
      build(i);
    }
    while (c.more(70)) {
      c.step();
      switch (c.weighted({14, 9, 3, 2, 2, 3, 1, 1})) {
        case 0: allocate(); break;
        case 1: deallocate(); break;
        case 2: reallocate(); break;
        case 3: move(); break;
        case 4: data(); break;
        case 5: pool(); break;
        case 6: other(); break;
        default:
          if (al.size() < 9) build(10 + (unsigned)al.size());
      }
    }
    umpire::mark_event("end");
    for (auto& e : external) umpire::deregister_external_allocation(e.first);
    json out{{"ops", ops}, {"failed", failed}, {"hidden", hidden}, {"undecided", undecided}, {"interesting", kinds.size() >= 2 && ops.size() >= 10 && special != 0}};
    json allocs = json::array();
    for (auto& x : al) {
      json s = stats(x.a, x.tracked ? x.kind : -1);
      if (x.name.size() > 511) out["long"] = true;
      allocs.push_back({{"name", x.name}, {"kind", x.kind}, {"leaf", !x.children && x.kind != HOSTK}, {"stats", s}});
    }
    out["allocators"] = allocs;
    std::ofstream(dir + out_name) << out.dump();
    fflush(nullptr);
  }
};

std::string tail(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  if (s.size() > 1500) s = s.substr(s.size() - 1500);
  return s;
}

// runs fn in a child of its own; the reason of death is left in `why`
template <typename F>
bool apart(Ctx& c, const std::string& dir, const char* what, std::string& why, F fn)
{
  std::string errfile = dir + "/" + what + ".err";
  pid_t pid = fork();
  if (pid == 0) {
    setenv("UMPIRE_LOG_LEVEL", "error", 1);
    setenv("UMPIRE_OUTPUT_DIR", dir.c_str(), 1);
    setenv("UMPIRE_OUTPUT_BASENAME", what, 1);
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    if (chdir(dir.c_str())) _exit(9);
    try {
      fn();
    } catch (std::exception& e) {
      fprintf(stderr, "uncaught: %s\n", e.what());
      _exit(8);
    }
    _exit(0);
  }
  int stt = 0;
  while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(stt) && WEXITSTATUS(stt) == 33) _exit(33); // already reported
  if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) return true;
  why = (WIFSIGNALED(stt) ? "signal " + std::to_string(WTERMSIG(stt)) : "exit status " + std::to_string(WEXITSTATUS(stt))) + "\n" + tail(errfile);
  return false;
}

std::string find_log(const std::string& dir, const std::string& what)
{
  std::string found;
  DIR* d = opendir(dir.c_str());
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n.rfind(what + ".", 0) == 0 && n.size() > 6 && n.substr(n.size() - 6) == ".stats") found = dir + "/" + n;
  }
  closedir(d);
  return found;
}

bool matches(const json& want, const json& e)
{
  for (auto it = want.begin(); it != want.end(); ++it) {
    const std::string& k = it.key();
    if (k == "name") {
      if (e.value("name", "") != it.value().get<std::string>()) return false;
    } else if (k == "tag_name") {
      if (!e["tags"].count("allocator_name") || e["tags"]["allocator_name"] != it.value()) return false;
    } else if (it.value().is_number()) {
      if (!e.count("numeric_args") || !e["numeric_args"].count(k)) return false;
      if (e["numeric_args"][k].get<std::uintmax_t>() != it.value().get<std::uintmax_t>()) return false;
    } else {
      if (!e.count("string_args") || !e["string_args"].count(k)) return false;
      std::string got = e["string_args"][k], exp = it.value();
      bool pointer = k == "allocation_name" || k == "arg0" ? false : true;
      if (pointer ? num(got) != num(exp) : got != exp) return false;
    }
  }
  return true;
}

// the log as one line of JSON per event
std::vector<std::string> log_lines(const std::string& log)
{
  std::vector<std::string> r;
#ifdef UMPIRE_ENABLE_SQLITE_EXPERIMENTAL
  sqlite3* db = nullptr;
  sqlite3_stmt* q = nullptr;
  if (!sqlite3_open_v2(log.c_str(), &db, SQLITE_OPEN_READONLY, nullptr) && !sqlite3_prepare_v2(db, "SELECT * FROM EVENTS ORDER BY rowid", -1, &q, nullptr))
    while (sqlite3_step(q) == SQLITE_ROW) r.emplace_back((const char*)sqlite3_column_text(q, 0), (std::size_t)sqlite3_column_bytes(q, 0));
  sqlite3_finalize(q);
  sqlite3_close(db);
#else
  std::ifstream f(log, std::ios::binary);
  std::string line;
  while (std::getline(f, line)) r.push_back(line);
#endif
  return r;
}

void write_log(const std::string& log, const std::vector<std::string>& lines)
{
#ifdef UMPIRE_ENABLE_SQLITE_EXPERIMENTAL
  sqlite3* db = nullptr;
  sqlite3_stmt* q = nullptr;
  sqlite3_open(log.c_str(), &db);
  sqlite3_exec(db, "CREATE TABLE EVENTS (EVENT JSON)", nullptr, nullptr, nullptr);
  sqlite3_prepare_v2(db, "INSERT INTO EVENTS VALUES(?)", -1, &q, nullptr);
  for (auto& l : lines) {
    sqlite3_bind_text(q, 1, l.data(), (int)l.size(), SQLITE_STATIC);
    sqlite3_step(q);
    sqlite3_reset(q);
  }
  sqlite3_finalize(q);
  sqlite3_close(db);
#else
  std::ofstream w(log, std::ios::binary);
  for (auto& l : lines) w << l << "\n";
#endif
}

void check_log(Ctx& c, const std::string& log, const json& script)
{
  std::vector<json> lines;
  for (const std::string& line : log_lines(log)) {
    json e;
    try {
      e = json::parse(line);
    } catch (std::exception& x) {
      c.fail("log-line", "line %zu of the log is not an event: %s", lines.size() + 1, show(line).substr(0, 300).c_str());
    }
    for (const char* k : {"name", "category", "tags", "timestamp"})
      PCHECK(c, e.count(k), "log-line", "line %zu has no %s: %s", lines.size() + 1, k, show(line).substr(0, 300).c_str());
    lines.push_back(e);
  }
  PCHECK(c, !lines.empty() && lines[0]["name"] == "version", "log-version", "the log does not begin with the version");
  PCHECK(c, lines[0]["numeric_args"]["major"] == UMPIRE_VERSION_MAJOR && lines[0]["numeric_args"]["minor"] == UMPIRE_VERSION_MINOR &&
                lines[0]["numeric_args"]["patch"] == UMPIRE_VERSION_PATCH,
         "log-version", "wrong version");
  // what a reader of the log believes is allocated
  std::map<std::string, std::pair<std::string, std::uintmax_t>> live;
  std::size_t at = 0, op = 0;
  auto marker = [&](const json& e) { return e["name"] == "event" && e["category"] == "metadata"; };
  while (at < lines.size() && !marker(lines[at])) ++at;
  for (auto& o : script["ops"]) {
    PCHECK(c, at < lines.size() && lines[at]["string_args"]["name"] == "op " + std::to_string(op), "log-marker", "mark_event for operation %zu is missing or out of order", op);
    ++at;
    std::size_t e0 = at;
    while (at < lines.size() && !marker(lines[at])) ++at;
    // required events
    std::size_t k = e0;
    for (auto& w : o["expect"]) {
      while (k < at && !matches(w, lines[k])) ++k;
      if (k >= at) {
        std::string have;
        for (std::size_t j = e0; j < at; ++j) have += lines[j].dump(-1, ' ', true) + "\n";
        c.fail("log-missing", "operation %zu should have been logged as %s; the log has:\n%s", op, w.dump(-1, ' ', true).c_str(), have.c_str());
      }
      ++k;
    }
    if (o["exact"].get<bool>())
      PCHECK(c, at - e0 == o["expect"].size(), "log-extra", "operation %zu: %zu events logged, %zu expected (first %s)", op, at - e0, o["expect"].size(),
             at > e0 ? lines[e0].dump(-1, ' ', true).c_str() : "none");
    // the live set according to the log
    bool inside = false; // between the two events of a reallocation that succeeded
    for (std::size_t j = e0; j < at; ++j) {
      auto& e = lines[j];
      std::string n = e["name"];
      json sa = e.count("string_args") ? e["string_args"] : json::object();
      if (n == "reallocate") {
        if (sa.count("new_ptr")) {
          live[ptr_string((void*)num(sa["new_ptr"]))] = {sa["allocator_ref"], live["pending"].second};
          live.erase("pending");
          inside = false;
        } else {
          bool second = false;
          for (std::size_t q = j + 1; q < at; ++q) second |= lines[q]["name"] == "reallocate" && lines[q]["string_args"].count("new_ptr");
          if (!second) continue; // failed
          live.erase(ptr_string((void*)num(sa["current_ptr"])));
          live["pending"] = {"", e["numeric_args"]["size"].get<std::uintmax_t>()};
          inside = true;
        }
      } else if (inside)
        continue;
      else if (n == "allocate" || n == "named_allocate")
        live[sa["pointer"]] = {sa["allocator_ref"], e["numeric_args"]["size"].get<std::uintmax_t>()};
      else if (n == "deallocate") {
        auto it = live.find(sa["pointer"]);
        if (it != live.end() && it->second.first == sa["allocator_ref"]) live.erase(it);
      }
    }
    PCHECK(c, live.size() == o["live"].size(), "log-live", "after operation %zu the log accounts for %zu live allocations, there are %zu", op, live.size(), o["live"].size());
    for (auto& l : o["live"]) {
      auto it = live.find(l[0]);
      PCHECK(c, it != live.end() && it->second.first == l[1] && it->second.second == l[2].get<std::uintmax_t>(), "log-live",
             "after operation %zu the log does not account for the %llu bytes at %s", op, (unsigned long long)l[2].get<std::uintmax_t>(), l[0].get<std::string>().c_str());
    }
    ++op;
  }
  PCHECK(c, at < lines.size() && lines[at]["string_args"]["name"] == "end", "log-marker", "the last event is missing");
}

// the numbers the tool prints (--stats) and dumps (--dump) are those its allocators end with
void check_reports(Ctx& c, const std::string& dir, const std::string& log, const ReplayOptions& o, const json& script, const json& second)
{
  std::map<std::string, std::vector<std::string>> printed, dumped;
  {
    std::ifstream f(dir + "/second.err", std::ios::binary);
    std::string line;
    while (std::getline(f, line)) {
      if (line.rfind(log, 0) != 0) continue;
      std::string rest = line.substr(std::max<std::size_t>(log.size(), 40));
      if (rest.size() < 40) continue;
      std::string n = rest.substr(0, 40);
      n.erase(n.find_last_not_of(' ') + 1);
      std::stringstream v(rest.substr(40));
      std::string w;
      while (v >> w) printed[n].push_back(w);
    }
  }
  DIR* d = opendir(dir.c_str());
  std::string ult;
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n.rfind("replay", 0) == 0 && n.size() > 4 && n.substr(n.size() - 4) == ".ult") ult = dir + "/" + n;
  }
  closedir(d);
  PCHECK(c, ult.empty() == !o.dump_statistics, "replay-dump", "%s", ult.empty() ? "no statistics were dumped" : "statistics were dumped without being asked for");
  if (!ult.empty()) {
    std::ifstream f(ult, std::ios::binary);
    std::string line, head;
    while (std::getline(f, line)) {
      if (line.rfind("# ", 0) == 0) head = line.substr(2);
      else dumped[head].push_back(line.substr(line.find(' ') + 1));
    }
  }
  PCHECK(c, o.track_stats || printed.empty(), "replay-stats", "statistics were printed without being asked for");
  std::size_t i = 0;
  for (auto& x : script["allocators"]) {
    std::string n = x["name"];
    json got = second[i++];
    bool plain = n.size() < 38;
    for (char ch : n) plain = plain && isalnum((unsigned char)ch);
    if (!plain) continue;
    if (o.track_stats && got["hwm"] != 0) {
      PCHECK(c, printed.count(n) && printed[n].size() == 3, "replay-stats", "no statistics were printed for '%s'", n.c_str());
      PCHECK(c, printed[n][0] == got["current"].dump() && printed[n][1] == got["actual"].dump() && printed[n][2] == got["hwm"].dump(), "replay-stats",
             "printed for '%s': current %s, actual %s, high watermark %s; it has %s", n.c_str(), printed[n][0].c_str(), printed[n][1].c_str(), printed[n][2].c_str(), got.dump().c_str());
    }
    if (o.dump_statistics && n != "HOST") { // HOST is the parent of all and does not belong to one entry of the tool's table
      const char* what[][2] = {{" current_size", "current"}, {" actual_size", "actual"}, {" hwm", "hwm"}, {" total blocks", "blocks"}, {" releasable blocks", "releasable"}};
      for (auto& w : what) {
        if (!got.count(w[1])) continue;
        auto& v = dumped[n + w[0]];
        PCHECK(c, !v.empty() && v.back() == got[w[1]].dump(), "replay-dump", "the last%s of '%s' in the dump is %s, it has %s", w[0], n.c_str(), v.empty() ? "missing" : v.back().c_str(),
               got[w[1]].dump().c_str());
      }
    }
  }
}

void replay(Ctx& c)
{
  std::string dir = c.scratch();
  ReplayOptions o;
  o.quiet = c.below(2);
  o.track_stats = c.chance(1, 4);
  o.dump_statistics = c.chance(1, 4);
  o.skip_operations = c.chance(1, 6);
  unsigned other = c.chance(1, 5) ? 1 + (unsigned)c.below(6) : 0;
  if (other == 1) o.pool_to_use = "Quick";
  if (other == 2) o.pool_to_use = "List";
  if (other >= 3) {
    o.heuristic_to_use = other == 3 ? "Block" : other == 4 ? "Block_hwm" : other == 5 ? "FreePercentage" : "FreePercentage_hwm";
    o.heuristic_parm = other >= 5 ? (int)c.range(1, 100) : (int)c.range(1, 5);
  }
  unsigned again = c.chance(1, 3);
  unsigned shorter = c.chance(1, 4) ? 1 + (unsigned)c.below(2) : 0;
  bool stale = c.chance(1, 2);
  std::string why;
  if (!apart(c, dir, "first", why, [&] { First(c, dir).run(); })) c.fail("history", "the recorded program died: %s", why.c_str());
  json script;
  std::ifstream(dir + "/script.json") >> script;
  std::string log = find_log(dir, "first");
  PCHECK(c, !log.empty(), "no-log", "no log was written");
  check_log(c, log, script);
  if (script.count("long")) { // the tool may refuse names it has no room for, but has to survive them
    c.label("log only: a name longer than the tool takes");
    o.input_file = log;
    if (!apart(c, dir, "second", why, [&] {
          ReplayInterpreter r(o);
          r.buildOperations();
        }))
      PCHECK(c, why.rfind("signal", 0) != 0 && why.find("Sanitizer") == std::string::npos, "replay-failed", "the replay tool does not survive a long name: %s", why.c_str());
    return;
  }
  if (script["hidden"].get<bool>()) {
    c.label("log only: a pool was refused memory");
    return;
  }

  // with another pool or heuristic: what the same program does when it asks for them itself
  bool exact = !other;
  if (other && !script["failed"].get<bool>()) {
    if (!apart(c, dir, "other", why, [&] {
          First f(c, dir);
          f.pool_to_use = o.pool_to_use;
          f.heuristic = o.heuristic_to_use;
          f.parm = o.heuristic_parm;
          f.out_name = "/other.json";
          f.run();
        }))
      c.fail("history", "the program died with %s %s: %s", std::string(o.pool_to_use).c_str(), std::string(o.heuristic_to_use).c_str(), why.c_str());
    json ref;
    std::ifstream(dir + "/other.json") >> ref;
    bool alike = !ref["failed"].get<bool>() && !ref["undecided"].get<bool>() && ref["ops"].size() == script["ops"].size();
    for (std::size_t k = 0; alike && k < ref["ops"].size(); ++k) alike = ref["ops"][k]["live"].size() == script["ops"][k]["live"].size();
    if (alike) {
      exact = true;
      script["allocators"] = ref["allocators"];
      c.label("compared with a run under the same pool and heuristic");
    }
  }

  o.input_file = log;
  std::string options = std::string(o.pool_to_use) + " " + o.heuristic_to_use + (o.dump_statistics ? " dump" : "") + (o.track_stats ? " stats" : "");
  if (!apart(c, dir, "second", why, [&] {
        {
          ReplayInterpreter r(o);
          r.buildOperations();
          r.runOperations();
        }
        auto& rm = umpire::ResourceManager::getInstance();
        json out = json::array();
        for (auto& x : script["allocators"]) {
          std::string n = x["name"];
          if (!rm.isAllocator(n)) {
            out.push_back(nullptr);
            continue;
          }
          bool blocks = exact && x["stats"].count("blocks");
          out.push_back(First::stats(rm.getAllocator(n), blocks ? (int)x["kind"] : -1));
        }
        std::ofstream(dir + "/second.json") << out.dump();
        fflush(nullptr);
      }))
    c.fail("replay-failed", "the replay tool could not replay the log (%s): %s", options.c_str(), why.c_str());
  json second;
  std::ifstream(dir + "/second.json") >> second;
  std::size_t i = 0;
  for (auto& x : script["allocators"]) {
    std::string n = show(x["name"]);
    json got = second[i++];
    PCHECK(c, !got.is_null(), "replay-allocator", "the replay did not make allocator '%s'", n.c_str());
    for (auto it = x["stats"].begin(); it != x["stats"].end(); ++it) {
      std::string k = it.key();
      if (!exact && (!x["leaf"].get<bool>() || (k != "current" && k != "count"))) continue;
      PCHECK(c, got.count(k) && got[k] == it.value(), "replay-statistics", "%s of '%s' (%s) is %s after the replay, %s originally [%s]", k.c_str(), n.c_str(),
             kname[(int)x["kind"]], got.count(k) ? got[k].dump().c_str() : "-", it.value().dump().c_str(), options.c_str());
    }
  }
  check_reports(c, dir, log, o, script, second);
  if (again && !other) {
    // the log of the replay compiles to the same operations
    std::string log2 = find_log(dir, "second");
    PCHECK(c, !log2.empty(), "no-log", "no log of the replay was written");
    if (!apart(c, dir, "third", why, [&] {
          ReplayOptions a, b;
          a.quiet = b.quiet = true;
          a.force_compile = true;
          a.input_file = log;
          b.input_file = log2;
          ReplayInterpreter l(a), r(b);
          l.buildOperations();
          r.buildOperations();
          if (!l.compareOperations(r)) _exit(7);
        }))
      c.fail("replay-diff", "replaydiff finds the log of the replay different from the log: %s", why.c_str());
    c.label("replayed log compared");
  }
  if (shorter) {
    // replaydiff tells a log from the same log without its last operation
    std::vector<std::string> lines = log_lines(log);
    int at = (int)lines.size() - 1;
    for (; at >= 0; --at) {
      json e = json::parse(lines[at]);
      std::string n = e["name"];
      if (e["category"] == "operation" && n != "copy" && n != "memset" && n != "register_external_allocation" && n != "deregister_external_allocation") {
        if (n != "allocate" && n != "named_allocate" && n != "release" && n != "coalesce" && n != "set_default_allocator" && n != "make_allocator") at = -1;
        break;
      }
    }
    if (at >= 0) {
      std::string cut = dir + "/cut.stats";
      lines.erase(lines.begin() + at);
      write_log(cut, lines);
      if (stale) { // a binary of another log lies there: it has to be compiled anew
        std::ifstream src(log + ".bin", std::ios::binary);
        std::ofstream(cut + ".bin", std::ios::binary) << src.rdbuf();
      }
      if (!apart(c, dir, "third", why, [&] {
            ReplayOptions a, b;
            a.quiet = b.quiet = true;
            a.input_file = shorter == 1 ? log : cut;
            b.input_file = shorter == 1 ? cut : log;
            a.force_compile = b.force_compile = true;
            ReplayInterpreter l(a), r(b);
            l.buildOperations();
            r.buildOperations();
            if (l.compareOperations(r)) _exit(7);
          }))
        c.fail("replay-diff", "replaydiff does not notice that the %s log lacks the last operation: %s", shorter == 1 ? "second" : "first", why.c_str());
      c.label("shorter log compared");
    }
  }
  if (script["interesting"].get<bool>()) c.nontrivial();
  if (script["failed"].get<bool>()) c.label("with failed requests");
  if (other) c.label("replayed with another pool or heuristic");
  c.label("replayed");
}

} // namespace

int main(int argc, char** argv)
{
  if (!getenv("UMPIRE_REPLAY")) { // read by static initialisers of the library
    setenv("UMPIRE_REPLAY", "1", 1);
    execv("/proc/self/exe", argv);
    return 2;
  }
  Settings s;
  return run_main(argc, argv,
                  {{"store", 1, 8, store, "at least two events written and read back"},
                   {"replay", 16, 1, replay, "at least two kinds of strategy, ten operations, and a reallocation, move, release or coalesce"}},
                  s);
}
