// C21: the C interface behaves like the C++ interface. Every history is run twice in one process, once through the C
// functions on one family of allocators and once through the C++ classes on its twin; results, errors, statistics,
// contents and the traffic seen by the two stand-in resources have to agree.
#include "world.hpp"

#include <sys/mman.h>

#include "umpire/Umpire.hpp"
#include "umpire/interface/c_fortran/umpire.h"
#include "umpire/interface/c_fortran/wrapAllocator.h"
#include "umpire/interface/c_fortran/wrapResourceManager.h"
#include "umpire/interface/c_fortran/wrapUmpire.h"
#include "umpire/strategy/AllocationAdvisor.hpp"
#include "umpire/strategy/AllocationPrefetcher.hpp"

extern "C" void umpire_ShroudCopyStringAndFree(umpire_SHROUD_array* data, char* c_var, size_t c_var_len);

using namespace pbt;
using umpire::Allocator;
using world::Spy;
namespace st = umpire::strategy;

namespace {

enum K { LEAF, QUICK, LIST, FIXED, NAMED, TSAFE, NK };
const char* kname[] = {"leaf", "QuickPool", "DynamicPoolList", "FixedPool", "Named", "ThreadSafe"};

struct Pair {
  umpire_allocator c;
  Allocator x;
  int kind;
  std::string name; // without the letter that tells the families apart
  std::size_t fixed{0};
  std::vector<std::string> aliases;
};
struct Block {
  char *c, *x;
  std::size_t n;
  int al;
};

struct Run {
  Ctx& c;
  umpire::ResourceManager& rm;
  umpire_resourcemanager crm;
  std::vector<Pair> al;
  std::vector<Block> live;
  std::vector<Block> ext; // memory registered by hand
  std::vector<std::unique_ptr<char[]>> mem;
  Spy *cs, *xs;
  int made{0}, moved{0};
  bool vast{false};                               // this history has sizes beyond 32 bits
  static constexpr std::size_t big = 1u << 24;    // contents of larger blocks are looked at in part
  std::size_t wide(std::size_t n) { return vast && c.chance(1, 5) ? n + ((std::size_t)c.range(1, 5) << 31) : n; }

  explicit Run(Ctx& ctx) : c(ctx), rm(umpire::ResourceManager::getInstance()) {}

  // runs both sides; true if both succeeded
  template <typename F, typename G>
  bool both(const char* what, F f, G g)
  {
    std::string e1, e2;
    auto go = [](auto& fn) -> std::string {
      try {
        fn();
        return "";
      } catch (umpire::out_of_memory_error&) {
        return "out_of_memory_error";
      } catch (umpire::runtime_error&) {
        return "runtime_error";
      } catch (std::exception& e) {
        return std::string("exception ") + typeid(e).name();
      }
    };
    e1 = go(f);
    e2 = go(g);
    c.step();
    PCHECK(c, e1 == e2, "outcome", "%s: the C function ended with '%s', the C++ function with '%s'", what, e1.c_str(), e2.c_str());
    if (!e1.empty()) c.label("both refused");
    return e1.empty();
  }

  std::string cn(const std::string& n) { return "c" + n; }
  std::string xn(const std::string& n) { return "x" + n; }
  std::string fresh() { return "n" + std::to_string(made++) + (c.chance(1, 4) ? std::string(c.below(40), 'y') : "") + (c.chance(1, 6) ? " z" : ""); }

  // a Fortran string: a length, and no terminator
  struct Fstr {
    std::unique_ptr<char[]> b;
    int n;
    Fstr(const std::string& s) : b(new char[s.size() + 1]), n((int)s.size())
    {
      memcpy(b.get(), s.data(), s.size());
      b[s.size()] = '#';
    }
  };

  void make()
  {
    if (al.size() > 8) return;
    int p = (int)c.below(al.size());
    if (al[p].fixed) p = 0;
    int k = 1 + (int)c.below(NK - 1);
    std::string n = c.chance(1, 10) ? al[c.below(al.size())].name : fresh();
    bool buf = c.below(2);
    std::size_t a = wide(c.size(4000)), b = wide(c.size(1000)), obj = 8 * c.range(1, 12);
    if (vast && c.chance(1, 8)) obj += std::size_t{1} << 32;
    Fstr f(cn(n));
    const char* name = cn(n).c_str();
    std::string cname = cn(n);
    name = cname.c_str();
    Pair y;
    y.kind = k;
    y.name = n;
    Allocator px = al[p].x;
    umpire_allocator pc = al[p].c;
    c.trace("make %s '%s' over '%s' %s (%zu %zu %zu)", kname[k], n.c_str(), al[p].name.c_str(), buf ? "bufferify" : "", a, b, obj);
    umpire_allocator* rv = nullptr;
    bool ok = both(
        "make_allocator",
        [&] {
          switch (k) {
            case QUICK:
              rv = buf ? umpire_resourcemanager_make_allocator_bufferify_quick_pool(&crm, f.b.get(), f.n, pc, a, b, &y.c)
                       : umpire_resourcemanager_make_allocator_quick_pool(&crm, name, pc, a, b, &y.c);
              break;
            case LIST:
              rv = buf ? umpire_resourcemanager_make_allocator_bufferify_list_pool(&crm, f.b.get(), f.n, pc, a, b, &y.c)
                       : umpire_resourcemanager_make_allocator_list_pool(&crm, name, pc, a, b, &y.c);
              break;
            case FIXED:
              rv = buf ? umpire_resourcemanager_make_allocator_bufferify_fixed_pool(&crm, f.b.get(), f.n, pc, obj, &y.c)
                       : umpire_resourcemanager_make_allocator_fixed_pool(&crm, name, pc, obj, &y.c);
              break;
            case NAMED:
              rv = buf ? umpire_resourcemanager_make_allocator_bufferify_named(&crm, f.b.get(), f.n, pc, &y.c)
                       : umpire_resourcemanager_make_allocator_named(&crm, name, pc, &y.c);
              break;
            default:
              rv = buf ? umpire_resourcemanager_make_allocator_bufferify_thread_safe(&crm, f.b.get(), f.n, pc, &y.c)
                       : umpire_resourcemanager_make_allocator_thread_safe(&crm, name, pc, &y.c);
          }
        },
        [&] {
          switch (k) {
            case QUICK: y.x = rm.makeAllocator<st::QuickPool>(xn(n), px, a, b); break;
            case LIST: y.x = rm.makeAllocator<st::DynamicPoolList>(xn(n), px, a, b); break;
            case FIXED: y.x = rm.makeAllocator<st::FixedPool>(xn(n), px, obj); break;
            case NAMED: y.x = rm.makeAllocator<st::NamedAllocationStrategy>(xn(n), px); break;
            default: y.x = rm.makeAllocator<st::ThreadSafeAllocator>(xn(n), px); break;
          }
        });
    if (!ok) return;
    PCHECK(c, rv == &y.c && y.c.idtor == 1, "handle", "make_allocator did not fill the handle it was given");
    if (k == FIXED) y.fixed = obj;
    PCHECK(c, rm.isAllocator(cn(n)) && rm.getAllocator(cn(n)).getAllocationStrategy() == static_cast<Allocator*>(y.c.addr)->getAllocationStrategy(), "handle",
           "the allocator made by C is not the one registered as '%s'", n.c_str());
    auto sc = rm.getAllocator(cn(n)).getStrategyName(), sx = y.x.getStrategyName();
    PCHECK(c, sc == sx, "strategy", "C made a %s, C++ a %s", sc.c_str(), sx.c_str());
    PCHECK(c, static_cast<Allocator*>(y.c.addr)->isTracked() == y.x.isTracked(), "strategy", "introspection differs");
    al.push_back(y);
  }

  void odd_make() // advisor and prefetcher need an operation the host does not have, or has
  {
    int p = (int)c.below(al.size());
    std::string n = fresh();
    bool buf = c.below(2), adv = c.below(2);
    std::string op = c.pick(std::vector<std::string>{"READ_MOSTLY", "PREFERRED_LOCATION", "nonsense", ""});
    int dev = (int)c.below(3);
    Fstr f(cn(n)), fo(op);
    std::string cname = cn(n);
    umpire_allocator h;
    Allocator px = al[p].x, y;
    umpire_allocator pc = al[p].c;
    c.trace("make %s '%s' %s", adv ? "advisor" : "prefetcher", n.c_str(), op.c_str());
    bool ok = both(
        "make_allocator (advisor, prefetcher)",
        [&] {
          if (adv)
            buf ? umpire_resourcemanager_make_allocator_bufferify_advisor(&crm, f.b.get(), f.n, pc, fo.b.get(), fo.n, dev, &h)
                : umpire_resourcemanager_make_allocator_advisor(&crm, cname.c_str(), pc, op.c_str(), dev, &h);
          else
            buf ? umpire_resourcemanager_make_allocator_bufferify_prefetcher(&crm, f.b.get(), f.n, pc, dev, &h)
                : umpire_resourcemanager_make_allocator_prefetcher(&crm, cname.c_str(), pc, dev, &h);
        },
        [&] {
          if (adv)
            y = rm.makeAllocator<st::AllocationAdvisor>(xn(n), px, op, dev);
          else
            y = rm.makeAllocator<st::AllocationPrefetcher>(xn(n), px, dev);
        });
    PCHECK(c, rm.isAllocator(cn(n)) == rm.isAllocator(xn(n)), "registered", "only one side registered '%s'", n.c_str());
    if (ok) umpire_allocator_delete(&h);
  }

  void allocate()
  {
    int i = (int)c.below(al.size());
    std::size_t n = al[i].fixed ? al[i].fixed : c.chance(1, 16) ? 0 : wide(c.size(3000));
    if (c.chance(1, 12)) {
      cs->fail_next = xs->fail_next = 1 + (unsigned)c.below(2);
      c.trace("(the resource refuses %u requests)", cs->fail_next);
    }
    c.trace("allocate %zu from '%s'", n, al[i].name.c_str());
    Block b{nullptr, nullptr, n, i};
    bool ok = both("allocate", [&] { b.c = (char*)umpire_allocator_allocate(&al[i].c, n); }, [&] { b.x = (char*)al[i].x.allocate(n); });
    cs->fail_next = xs->fail_next = 0;
    if (!ok) return;
    pattern(b);
    live.push_back(b);
  }

  unsigned salt{1};
  void pattern(Block& b)
  {
    ++salt;
    for (std::size_t i = 0; i < b.n; i = b.n > big && i == 99 ? b.n - 99 : i + 1) b.c[i] = b.x[i] = (char)mix(salt * 131 + i);
  }

  void deallocate()
  {
    if (c.chance(1, 12)) {
      int i = (int)c.below(al.size());
      unsigned how = c.below(3);
      char* wild = how == 0 || live.empty() ? nullptr : how == 1 ? live[0].c + (live[0].n > 1 ? 1 : 0) : (char*)this;
      char* wildx = how == 0 || live.empty() ? nullptr : how == 1 ? live[0].x + (live[0].n > 1 ? 1 : 0) : (char*)this;
      if (how == 1 && !live.empty() && live[0].n < 2) return;
      c.trace("deallocate odd pointer %u", how);
      if (c.below(2))
        both("deallocate", [&] { umpire_allocator_deallocate(&al[i].c, wild); }, [&] { al[i].x.deallocate(wildx); });
      else
        both("deallocate", [&] { umpire_resourcemanager_deallocate(&crm, wild); }, [&] { rm.deallocate(wildx); });
      return;
    }
    if (live.empty()) return;
    std::size_t k = c.below(live.size());
    Block b = live[k];
    unsigned how = c.weighted({4, 3, 1});
    if (how == 2) {
      int w = (int)c.below(al.size());
      if (w == b.al) return;
      c.trace("deallocate through the wrong allocator");
      bool ok = both("deallocate", [&] { umpire_allocator_deallocate(&al[w].c, b.c); }, [&] { al[w].x.deallocate(b.x); });
      PCHECK(c, !ok, "wrong-allocator", "accepted");
      return;
    }
    c.trace("deallocate %zu", b.n);
    if (how == 0)
      both("deallocate", [&] { umpire_allocator_deallocate(&al[b.al].c, b.c); }, [&] { al[b.al].x.deallocate(b.x); });
    else
      both("deallocate", [&] { umpire_resourcemanager_deallocate(&crm, b.c); }, [&] { rm.deallocate(b.x); });
    live.erase(live.begin() + (long)k);
  }

  void data()
  {
    if (live.empty()) return;
    Block &a = live[c.below(live.size())], &b = live[c.below(live.size())];
    std::size_t ao = a.n ? c.below(a.n) : 0, bo = b.n ? c.below(b.n) : 0; // one past the end may be another allocation
    if (a.n > big || b.n > big) return;
    std::size_t len = c.chance(1, 8) ? wide(c.size(4000)) : c.below(std::min(a.n - ao, b.n - bo) + 1);
    switch (c.below(4)) {
      case 0:
        // C++ copy(dst, src): the C functions take the pointers in the same positions
        if (&a == &b || ao + b.n - bo > a.n) return; // copying everything after bo must fit the source it is read from
        c.trace("copy_all");
        both("copy_all", [&] { umpire_resourcemanager_copy_all(&crm, a.c + ao, b.c + bo); }, [&] { rm.copy(a.x + ao, b.x + bo); });
        break;
      case 1: {
        if (&a == &b) return;
        if (len > b.n - bo) len = b.n - bo; // the source has to hold what is copied
        c.trace("copy_with_size %zu to %zu+%zu", len, a.n, ao);
        both("copy_with_size", [&] { umpire_resourcemanager_copy_with_size(&crm, a.c + ao, b.c + bo, len); }, [&] { rm.copy(a.x + ao, b.x + bo, len); });
        break;
      }
      case 2: {
        int v = (int)c.below(256);
        c.trace("memset_all %zu+%zu", a.n, ao);
        both("memset_all", [&] { umpire_resourcemanager_memset_all(&crm, a.c + ao, v); }, [&] { rm.memset(a.x + ao, v); });
        break;
      }
      default: {
        int v = (int)c.below(256);
        c.trace("memset_with_size %zu+%zu %zu", a.n, ao, len);
        both("memset_with_size", [&] { umpire_resourcemanager_memset_with_size(&crm, a.c + ao, v, len); }, [&] { rm.memset(a.x + ao, v, len); });
      }
    }
  }

  void reshape()
  {
    bool null = live.empty() || c.chance(1, 8);
    std::size_t k = null ? 0 : c.below(live.size());
    Block b = null ? Block{nullptr, nullptr, 0, (int)c.below(al.size())} : live[k];
    int w = c.chance(1, 6) ? (int)c.below(al.size()) : b.al;
    std::size_t off = !null && b.n > 1 && c.chance(1, 12) ? 1 : 0;
    Block r = b;
    bool ok;
    if (b.n > big) return;
    if (c.below(3) == 0) {
      if (null) return;
      int d = (int)c.below(al.size());
      if (al[d].fixed && al[d].fixed != b.n) return;
      c.trace("move %zu from '%s' to '%s'", b.n, al[b.al].name.c_str(), al[d].name.c_str());
      ok = both("move", [&] { r.c = (char*)umpire_resourcemanager_move(&crm, b.c + off, al[d].c); }, [&] { r.x = (char*)rm.move(b.x + off, al[d].x); });
      if (ok) PCHECK(c, (r.c == b.c) == (r.x == b.x), "move", "only one side kept the pointer");
      r.al = d;
      ++moved;
    } else {
      std::size_t n = al[w].fixed ? al[w].fixed : c.chance(1, 12) ? 0 : wide(c.size(3000));
      if (c.below(2)) {
        c.trace("reallocate_with_allocator %zu -> %zu", b.n, n);
        ok = both(
            "reallocate_with_allocator", [&] { r.c = (char*)umpire_resourcemanager_reallocate_with_allocator(&crm, b.c + off, n, al[w].c); },
            [&] { r.x = (char*)rm.reallocate(b.x + off, n, al[w].x); });
        r.al = w;
      } else {
        if (!null && al[b.al].fixed) n = al[b.al].fixed;
        if (null && al[w].fixed) n = al[w].fixed;
        c.trace("reallocate_default %zu -> %zu", b.n, n);
        auto old = rm.getDefaultAllocator();
        ok = both(
            "reallocate_default",
            [&] {
              rm.setDefaultAllocator(*static_cast<Allocator*>(al[w].c.addr));
              r.c = (char*)umpire_resourcemanager_reallocate_default(&crm, b.c + off, n);
            },
            [&] {
              rm.setDefaultAllocator(al[w].x);
              r.x = (char*)rm.reallocate(b.x + off, n);
            });
        rm.setDefaultAllocator(old);
        r.al = null ? w : b.al;
      }
      r.n = n;
      ++moved;
    }
    if (!ok) return;
    std::size_t keep = std::min(r.n, b.n);
    PCHECK(c, !memcmp(r.c, r.x, keep), "contents", "after reallocate or move the two sides hold different bytes");
    pattern(r);
    if (null)
      live.push_back(r);
    else
      live[k] = r;
  }

  void pools()
  {
    int i = (int)c.below(al.size());
    c.trace("release '%s'", al[i].name.c_str());
    both("release", [&] { umpire_allocator_release(&al[i].c); }, [&] { al[i].x.release(); });
  }

  void lookup()
  {
    int i = (int)c.below(al.size());
    bool buf = c.below(2);
    unsigned how = c.below(8);
    std::string n = c.chance(1, 5) ? fresh() : al[i].aliases.empty() || c.below(2) ? al[i].name : c.pick(al[i].aliases);
    std::string cname = cn(n);
    Fstr f(cname);
    umpire_allocator h;
    Allocator y;
    bool got = false, known = false;
    switch (how) {
      case 0:
        got = both(
            "get_allocator_by_name",
            [&] {
              buf ? umpire_resourcemanager_get_allocator_by_name_bufferify(&crm, f.b.get(), f.n, &h)
                  : umpire_resourcemanager_get_allocator_by_name(&crm, cname.c_str(), &h);
            },
            [&] { y = rm.getAllocator(xn(n)); });
        break;
      case 1: {
        int ci = (int)umpire_allocator_get_id(&al[i].c), xi = al[i].x.getId();
        if (c.chance(1, 4)) ci = xi = 1000 + (int)c.below(50);
        if (c.chance(1, 8)) ci = xi = -1;
        got = both("get_allocator_by_id", [&] { umpire_resourcemanager_get_allocator_by_id(&crm, ci, &h); }, [&] { y = rm.getAllocator(xi); });
        bool a = umpire_resourcemanager_is_allocator_id(&crm, ci), b = rm.isAllocator(xi);
        PCHECK(c, a == b, "is_allocator_id", "C says %d, C++ says %d", a, b);
        break;
      }
      case 2: {
        if (live.empty()) return;
        Block& b = live[c.below(live.size())];
        std::size_t o = b.n ? c.below(b.n) : 0;
        got = both("get_allocator_for_ptr", [&] { umpire_resourcemanager_get_allocator_for_ptr(&crm, b.c + o, &h); },
                   [&] { y = rm.getAllocator(static_cast<void*>(b.x + o)); });
        bool p = umpire_resourcemanager_has_allocator(&crm, b.c + o), q = rm.hasAllocator(b.x + o);
        PCHECK(c, p == q, "has_allocator", "C says %d, C++ says %d", p, q);
        std::size_t s1 = 0, s2 = 0;
        both("get_size", [&] { s1 = umpire_resourcemanager_get_size(&crm, b.c + o); }, [&] { s2 = rm.getSize(b.x + o); });
        PCHECK(c, s1 == s2, "get_size", "C says %zu, C++ says %zu", s1, s2);
        both("allocator get_size", [&] { s1 = umpire_allocator_get_size(&al[b.al].c, b.c + o); }, [&] { s2 = al[b.al].x.getSize(b.x + o); });
        PCHECK(c, s1 == s2, "get_size", "C says %zu, C++ says %zu", s1, s2);
        break;
      }
      case 3: {
        bool a = buf ? umpire_resourcemanager_is_allocator_name_bufferify(&crm, f.b.get(), f.n) : umpire_resourcemanager_is_allocator_name(&crm, cname.c_str());
        bool b = rm.isAllocator(xn(n));
        PCHECK(c, a == b, "is_allocator_name", "'%s': C says %d, C++ says %d", n.c_str(), a, b);
        return;
      }
      case 4: {
        std::string a = c.chance(1, 5) ? al[c.below(al.size())].name : fresh();
        Fstr fa(cn(a));
        std::string ca = cn(a);
        c.trace("alias '%s' of '%s'", a.c_str(), al[i].name.c_str());
        if (both(
                "add_alias",
                [&] {
                  buf ? umpire_resourcemanager_add_alias_bufferify(&crm, fa.b.get(), fa.n, al[i].c)
                      : umpire_resourcemanager_add_alias(&crm, ca.c_str(), al[i].c);
                },
                [&] { rm.addAlias(xn(a), al[i].x); }))
          al[i].aliases.push_back(a);
        return;
      }
      case 5: {
        std::string a = !al[i].aliases.empty() && !c.chance(1, 4) ? al[i].aliases.back() : c.below(2) ? al[i].name : fresh();
        int w = c.chance(1, 5) ? (int)c.below(al.size()) : i;
        Fstr fa(cn(a));
        std::string ca = cn(a);
        c.trace("remove alias '%s' of '%s'", a.c_str(), al[w].name.c_str());
        if (both(
                "remove_alias",
                [&] {
                  buf ? umpire_resourcemanager_remove_alias_bufferify(&crm, fa.b.get(), fa.n, al[w].c)
                      : umpire_resourcemanager_remove_alias(&crm, ca.c_str(), al[w].c);
                },
                [&] { rm.removeAlias(xn(a), al[w].x); }))
          for (auto& z : al) z.aliases.erase(std::remove(z.aliases.begin(), z.aliases.end(), a), z.aliases.end());
        bool p = rm.isAllocator(cn(a)), q = rm.isAllocator(xn(a));
        PCHECK(c, p == q, "remove_alias", "the name is still known on one side only");
        return;
      }
      case 6: { // memory registered by hand
        if (!ext.empty() && c.below(2)) {
          Block b = ext.back();
          c.trace("deregister");
          if (both("deregister_allocation", [&] { umpire_resourcemanager_deregister_allocation(&crm, b.c); }, [&] { rm.deregisterAllocation(b.x); })) ext.pop_back();
          bool p = umpire_resourcemanager_has_allocator(&crm, b.c), q = rm.hasAllocator(b.x);
          PCHECK(c, !p && !q, "deregister", "still known: C %d C++ %d", p, q);
          return;
        }
        std::size_t z = wide(c.range(1, 300));
        char *pc, *px;
        if (z < big) {
          mem.emplace_back(new char[z]);
          pc = mem.back().get();
          mem.emplace_back(new char[z]);
          px = mem.back().get();
        } else {
          pc = (char*)mmap(nullptr, z, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
          px = (char*)mmap(nullptr, z, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
          if (pc == MAP_FAILED || px == MAP_FAILED) return;
        }
        c.trace("register %zu", z);
        if (both("register_allocation", [&] { umpire_resourcemanager_register_allocation(&crm, pc, z, al[i].c); },
                 [&] { rm.registerAllocation(px, {px, z, al[i].x.getAllocationStrategy()}); })) {
          ext.push_back({pc, px, z, i});
          std::size_t o = c.below(z);
          PCHECK(c, umpire_resourcemanager_get_size(&crm, pc + o) == z && rm.getSize(px + o) == z, "register", "wrong size for registered memory");
          PCHECK(c, umpire_resourcemanager_has_allocator(&crm, pc + o), "register", "registered memory is not known");
        }
        return;
      }
      default: {
        if (live.size() < 2) return;
        auto &a = live[c.below(live.size())], &b = live[c.below(live.size())];
        bool p = false, q = false;
        if (both("pointer_overlaps", [&] { p = umpire_pointer_overlaps(a.c, b.c); }, [&] { q = umpire::pointer_overlaps(a.x, b.x); }))
          PCHECK(c, p == q, "pointer_overlaps", "C %d, C++ %d", p, q);
        if (both("pointer_contains", [&] { p = umpire_pointer_contains(a.c, b.c); }, [&] { q = umpire::pointer_contains(a.x, b.x); }))
          PCHECK(c, p == q, "pointer_contains", "C %d, C++ %d", p, q);
        umpire_SHROUD_array arr;
        memset(&arr, 0, sizeof arr);
        std::string bt;
        if (both("get_backtrace", [&] { umpire_get_backtrace_bufferify(a.c, &arr); }, [&] { bt = umpire::get_backtrace(a.x); })) {
          std::string want = umpire::get_backtrace(a.c);
          std::string have = arr.addr.ccharp ? std::string(arr.addr.ccharp, arr.elem_len) : "";
          PCHECK(c, have == want, "get_backtrace", "'%s' through C, '%s' through C++", have.c_str(), want.c_str());
          umpire_SHROUD_memory_destructor(&arr.cxx);
          PCHECK(c, arr.cxx.addr == nullptr, "destructor", "capsule still owns its memory");
        }
        return;
      }
    }
    (void)known;
    if (!got) return;
    // the handle stands for the corresponding allocator of the other family
    std::string a = umpire_allocator_get_name(&h), b = y.getName();
    PCHECK(c, !a.empty() && !b.empty() && a.substr(1) == b.substr(1), "lookup", "C found '%s', C++ found '%s'", a.c_str(), b.c_str());
    PCHECK(c, umpire_allocator_get_current_size(&h) == y.getCurrentSize(), "lookup", "the handle does not stand for '%s'", b.c_str());
    if (c.below(2)) {
      umpire_SHROUD_capsule_data cap;
      cap.addr = h.addr;
      cap.idtor = h.idtor;
      umpire_SHROUD_memory_destructor(&cap);
      PCHECK(c, cap.addr == nullptr && cap.idtor == 0, "destructor", "capsule still owns its memory");
    } else {
      umpire_allocator_delete(&h);
      PCHECK(c, h.addr == nullptr, "delete", "handle still points at the deleted allocator");
    }
  }

  void agree()
  {
    for (auto& p : al) {
      auto eq = [&](const char* what, std::size_t a, std::size_t b) { PCHECK(c, a == b, what, "'%s': C says %zu, C++ says %zu", p.name.c_str(), a, b); };
      Allocator& under = *static_cast<Allocator*>(p.c.addr);
      eq("current_size", umpire_allocator_get_current_size(&p.c), p.x.getCurrentSize());
      eq("high_watermark", umpire_allocator_get_high_watermark(&p.c), p.x.getHighWatermark());
      eq("actual_size", umpire_allocator_get_actual_size(&p.c), p.x.getActualSize());
      eq("allocation_count", umpire_allocator_get_allocation_count(&p.c), p.x.getAllocationCount());
      eq("id", umpire_allocator_get_id(&p.c), (std::size_t)under.getId());
      PCHECK(c, under.getName() == umpire_allocator_get_name(&p.c) && under.getName() == cn(p.name), "name", "'%s' is called '%s'", p.name.c_str(), umpire_allocator_get_name(&p.c));
    }
    PCHECK(c, cs->error.empty() && xs->error.empty(), "parent-protocol", "%s%s", cs->error.c_str(), xs->error.c_str());
    PCHECK(c, cs->journal.size() == xs->journal.size(), "traffic", "the C side made %zu requests of its resource, the C++ side %zu", cs->journal.size(), xs->journal.size());
    for (std::size_t i = 0; i < cs->journal.size(); ++i)
      PCHECK(c, cs->journal[i].add == xs->journal[i].add && cs->journal[i].size == xs->journal[i].size && cs->journal[i].serial == xs->journal[i].serial, "traffic",
             "request %zu differs", i);
    for (auto& b : live) PCHECK(c, b.n > big ? !memcmp(b.c, b.x, 99) && !memcmp(b.c + b.n - 99, b.x + b.n - 99, 99) : !memcmp(b.c, b.x, b.n), "contents", "the two sides hold different bytes");
  }

  void names()
  {
    int i = (int)c.below(al.size());
    umpire_SHROUD_array arr;
    memset(&arr, 0, sizeof arr);
    umpire_allocator_get_name_bufferify(&al[i].c, &arr);
    std::string want = cn(al[i].name), have(arr.addr.ccharp ? arr.addr.ccharp : "", arr.elem_len);
    PCHECK(c, have == want, "name_bufferify", "'%s' for '%s'", have.c_str(), want.c_str());
    // into a Fortran variable of any length
    std::size_t room = c.below(60);
    std::unique_ptr<char[]> buf(new char[room + 1]);
    memset(buf.get(), '@', room + 1);
    umpire_ShroudCopyStringAndFree(&arr, buf.get(), room);
    std::size_t n = std::min(room, want.size());
    PCHECK(c, !memcmp(buf.get(), want.data(), n), "copy_string", "wrong text");
    for (std::size_t k = n; k <= room; ++k) PCHECK(c, buf[k] == '@', "copy_string", "wrote past the text");
    PCHECK(c, std::string(umpire_allocator_get_name(&al[i].c)) == want, "copy_string", "the allocator lost its name");
    PCHECK(c, umpire_get_major_version() == umpire::get_major_version() && umpire_get_minor_version() == umpire::get_minor_version() &&
                  umpire_get_patch_version() == umpire::get_patch_version(),
           "version", "versions differ");
    PCHECK(c, umpire_get_device_memory_usage(0) == umpire::get_device_memory_usage(0), "usage", "device usage differs");
    PCHECK(c, umpire_get_process_memory_usage_hwm() > 0 && umpire_get_process_memory_usage() > 0, "usage", "no memory in use");
    std::size_t h1 = umpire::get_process_memory_usage_hwm(), h2 = umpire_get_process_memory_usage_hwm(), h3 = umpire::get_process_memory_usage_hwm();
    PCHECK(c, h1 <= h2 && h2 <= h3, "usage", "high water mark %zu between %zu and %zu", h2, h1, h3);
  }

  void run()
  {
    umpire_resourcemanager* r = umpire_resourcemanager_get_instance(&crm);
    PCHECK(c, r == &crm && crm.addr == &rm, "instance", "not the resource manager");
    Pair leaf;
    leaf.kind = LEAF;
    leaf.name = "leaf";
    Allocator ca = rm.makeAllocator<Spy>("cleaf", 0);
    leaf.x = rm.makeAllocator<Spy>("xleaf", 0);
    cs = dynamic_cast<Spy*>(ca.getAllocationStrategy());
    xs = dynamic_cast<Spy*>(leaf.x.getAllocationStrategy());
    vast = c.chance(1, 6);
    for (Spy* s : {cs, xs}) {
      std::size_t room = std::size_t{1} << (vast ? 39 : 28);
      s->arena = (char*)mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (s->arena == MAP_FAILED) {
        room = std::size_t{1} << 28;
        vast = false;
        s->arena = (char*)mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      }
      s->arena_room = room;
    }
    cs->vast = xs->vast = vast;
    cs->arena_room = xs->arena_room = std::min(cs->arena_room, xs->arena_room);
    umpire_resourcemanager_get_allocator_by_name(&crm, "cleaf", &leaf.c);
    al.push_back(leaf);
    unsigned n = 1 + (unsigned)c.below(4);
    for (unsigned i = 0; i < n; ++i) {
      c.span();
      make();
    }
    while (c.more(80)) {
      switch (c.weighted({12, 8, 4, 5, 2, 5, 1, 1, 1})) {
        case 0: allocate(); break;
        case 1: deallocate(); break;
        case 2: data(); break;
        case 3: reshape(); break;
        case 4: pools(); break;
        case 5: lookup(); break;
        case 6: names(); break;
        case 7: odd_make(); break;
        default: make();
      }
      agree();
    }
    if (vast) c.label("beyond 32 bits");
    if (al.size() >= 2 && moved && live.size() > 1) c.nontrivial();
  }
};

void capi(Ctx& c)
{
  setenv("UMPIRE_LOG_LEVEL", "error", 1);
  Run(c).run();
}

} // namespace

int main(int argc, char** argv)
{
  Settings s;
  return run_main(argc, argv, {{"capi", 1, 1, capi, "at least two allocators, a reallocation or move, and two live allocations at the end"}}, s);
}
