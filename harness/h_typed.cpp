// C27: TypedAllocator in standard containers, and used directly.
#include "world.hpp"

#include <deque>
#include <list>
#include <unordered_map>

#include "umpire/TypedAllocator.hpp"

using namespace pbt;
using umpire::Allocator;
using umpire::TypedAllocator;
namespace st = umpire::strategy;

namespace {

struct Big {
  std::uint64_t k[5];
  Big(std::uint64_t v = 0) { for (auto& x : k) x = v++; }
  bool operator==(const Big& o) const { return !memcmp(k, o.k, sizeof k); }
};
struct Odd { // size 3
  unsigned char b[3];
  Odd(std::uint64_t v = 0) { b[0] = (unsigned char)v; b[1] = (unsigned char)(v >> 8); b[2] = 7; }
  bool operator==(const Odd& o) const { return !memcmp(b, o.b, 3); }
};

struct Pools {
  std::vector<Allocator> v;
};

Pools make(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  static unsigned serial = 0;
  std::string u = std::to_string(serial++);
  Pools p;
  Allocator host = rm.getAllocator("HOST");
  unsigned n = 2 + (unsigned)c.below(2);
  for (unsigned i = 0; i < n; ++i) {
    std::string nm = "t" + u + "_" + std::to_string(i);
    switch (c.below(6)) {
      case 0: p.v.push_back(rm.makeAllocator<st::NamedAllocationStrategy>(nm, host)); break;
      case 1: p.v.push_back(rm.makeAllocator<st::QuickPool>(nm, host, c.size(4000), c.size(500))); break;
      case 2: p.v.push_back(rm.makeAllocator<st::DynamicPoolList>(nm, host, c.size(4000), c.size(500))); break;
      case 3: p.v.push_back(rm.makeAllocator<st::MixedPool>(nm, host)); break;
      case 4: p.v.push_back(rm.makeAllocator<st::ThreadSafeAllocator>(nm, host)); break;
      default: p.v.push_back(rm.makeAllocator<st::QuickPool>(nm, p.v.empty() ? host : p.v[0], 512, 256)); break;
    }
  }
  return p;
}

// where an element lives: tracked, and by the allocator of its container
template <typename T>
void located(Ctx& c, const T* p, Allocator a, const char* what)
{
  auto& rm = umpire::ResourceManager::getInstance();
  void* q = const_cast<void*>(static_cast<const void*>(p));
  PCHECK(c, rm.hasAllocator(q), "untracked", "%s: an element is not in tracked memory", what);
  PCHECK(c, rm.getAllocator(q).getId() == a.getId(), "wrong-allocator", "%s: an element is in memory of \"%s\", not of \"%s\"", what,
         rm.getAllocator(q).getName().c_str(), a.getName().c_str());
}

template <typename C, typename R>
void same(Ctx& c, const C& x, const R& r, Allocator a, const char* what)
{
  PCHECK(c, x.size() == r.size(), "size", "%s: %zu elements instead of %zu", what, (std::size_t)x.size(), (std::size_t)r.size());
  auto i = x.begin();
  auto j = r.begin();
  std::size_t k = 0;
  for (; i != x.end(); ++i, ++j, ++k) {
    PCHECK(c, *i == *j, "element", "%s: element %zu differs from the same container with std::allocator", what, k);
    if (k < 4) located(c, &*i, a, what);
  }
}

template <typename T, template <typename, typename> class Seq>
void sequence(Ctx& c, const char* what)
{
  using A = TypedAllocator<T>;
  using C = Seq<T, A>;
  using R = Seq<T, std::allocator<T>>;
  Pools pools = make(c);
  std::vector<std::size_t> before;
  for (auto& a : pools.v) before.push_back(a.getAllocationCount());
  unsigned ops = 0;
  {
    std::vector<C> x;
    std::vector<R> r;
    std::vector<int> owner;
    x.reserve(8);
    r.reserve(8);
    unsigned n = 2 + (unsigned)c.below(3);
    for (unsigned i = 0; i < n; ++i) {
      int w = (int)c.below(pools.v.size());
      owner.push_back(w);
      x.emplace_back(A(pools.v[w]));
      r.emplace_back();
    }
    std::uint64_t val = 1;
    while (c.more(60)) {
      c.step();
      ++ops;
      unsigned i = (unsigned)c.below(x.size()), j = (unsigned)c.below(x.size());
      switch (c.below(11)) {
        case 0:
        case 1:
        case 2: {
          unsigned k = 1 + (unsigned)c.below(20);
          c.trace("push %u onto %u", k, i);
          for (; k; --k) {
            x[i].push_back(T(++val));
            r[i].push_back(T(val));
          }
          break;
        }
        case 3: {
          if (r[i].empty()) break;
          std::size_t at = c.below(r[i].size());
          c.trace("erase %zu of %u", at, i);
          x[i].erase(std::next(x[i].begin(), at));
          r[i].erase(std::next(r[i].begin(), at));
          break;
        }
        case 4: {
          std::size_t at = c.below(r[i].size() + 1), k = c.below(30);
          c.trace("insert %zu at %zu of %u", k, at, i);
          x[i].insert(std::next(x[i].begin(), at), k, T(++val));
          r[i].insert(std::next(r[i].begin(), at), k, T(val));
          break;
        }
        case 5: {
          std::size_t k = c.below(80);
          c.trace("resize %u to %zu", i, k);
          x[i].resize(k);
          r[i].resize(k);
          break;
        }
        case 6:
          if (i == j) break;
          c.trace("%u = %u", i, j);
          x[i] = x[j];
          r[i] = r[j];
          break;
        case 7: // move: across different allocators the elements move one by one
          if (i == j) break;
          c.trace("%u = move(%u)", i, j);
          x[i] = std::move(x[j]);
          r[i] = r[j];
          x[j].clear();
          r[j].clear();
          break;
        case 8:
          if (i == j || !(x[i].get_allocator() == x[j].get_allocator())) break;
          c.trace("swap %u %u", i, j);
          x[i].swap(x[j]);
          r[i].swap(r[j]);
          break;
        case 9: {
          c.trace("copy of %u", i);
          C t(x[i]);
          same(c, t, r[i], pools.v[owner[i]], what);
          C m(std::move(t));
          same(c, m, r[i], pools.v[owner[i]], what);
          break;
        }
        default:
          c.trace("clear %u", i);
          x[i].clear();
          r[i].clear();
          break;
      }
      PCHECK(c, (x[i].get_allocator() == x[j].get_allocator()) == (owner[i] == owner[j]) && (x[i].get_allocator() != x[j].get_allocator()) == (owner[i] != owner[j]),
             "allocator-equality", "%s: the allocators of two containers compare wrongly", what);
      same(c, x[i], r[i], pools.v[owner[i]], what);
      same(c, x[j], r[j], pools.v[owner[j]], what);
    }
    for (std::size_t k = 0; k < x.size(); ++k) same(c, x[k], r[k], pools.v[owner[k]], what);
  }
  for (std::size_t i = 0; i < pools.v.size(); ++i)
    PCHECK(c, pools.v[i].getAllocationCount() <= before[i] + (i == 0 ? pools.v.size() : 0), "leak", "%s: %zu allocations are left after the containers were destroyed",
           what, pools.v[i].getAllocationCount());
  if (ops > 5) c.nontrivial();
  c.label(what);
}

template <typename T, typename A> using Vec = std::vector<T, A>;
template <typename T, typename A> using Lst = std::list<T, A>;
template <typename T, typename A> using Deq = std::deque<T, A>;

void maps(Ctx& c)
{
  using K = std::pair<const int, Big>;
  using A = TypedAllocator<K>;
  Pools pools = make(c);
  Allocator a = pools.v[0], b = pools.v[1];
  std::size_t na = a.getAllocationCount(), nb = b.getAllocationCount();
  unsigned ops = 0;
  {
    std::map<int, Big, std::less<int>, A> m{std::less<int>(), A(a)};
    std::unordered_map<int, Big, std::hash<int>, std::equal_to<int>, A> h(3, std::hash<int>(), std::equal_to<int>(), A(b));
    std::map<int, Big> r;
    std::basic_string<char, std::char_traits<char>, TypedAllocator<char>> s{TypedAllocator<char>(a)};
    std::string rs;
    std::uint64_t v = 0;
    while (c.more(80)) {
      c.step();
      ++ops;
      int k = (int)c.below(60);
      switch (c.below(6)) {
        case 0:
        case 1:
        case 2: m[k] = h[k] = r[k] = Big(v += 7); break;
        case 3:
          m.erase(k);
          h.erase(k);
          r.erase(k);
          break;
        case 4: {
          std::string add(c.below(60), (char)('a' + c.below(26)));
          s += add.c_str();
          rs += add;
          if (rs.size() > 400) {
            s.erase(0, 100);
            rs.erase(0, 100);
          }
          break;
        }
        default: {
          auto copy = m;
          PCHECK(c, copy.size() == r.size(), "size", "map copy");
          h.rehash(c.below(100));
          break;
        }
      }
      PCHECK(c, m.size() == r.size() && h.size() == r.size(), "size", "maps have %zu and %zu elements instead of %zu", m.size(), h.size(), r.size());
      auto it = m.begin();
      for (auto& e : r) {
        PCHECK(c, it->first == e.first && it->second == e.second, "element", "map element %d", e.first);
        located(c, &*it, a, "map");
        ++it;
        auto f = h.find(e.first);
        PCHECK(c, f != h.end() && f->second == e.second, "element", "hash map element %d", e.first);
        located(c, &*f, b, "unordered_map");
      }
      PCHECK(c, std::string(s.c_str()) == rs, "element", "string content");
      if (rs.size() > 64) located(c, s.data(), a, "string");
    }
  }
  PCHECK(c, b.getAllocationCount() == nb && a.getAllocationCount() <= na + pools.v.size(), "leak", "%zu and %zu allocations are left", a.getAllocationCount(), b.getAllocationCount());
  if (ops > 5) c.nontrivial();
}

template <typename T>
void direct_one(Ctx& c, Allocator a, Allocator b, std::vector<std::pair<void*, std::size_t>>& keep)
{
  auto& rm = umpire::ResourceManager::getInstance();
  TypedAllocator<T> t(a);
  std::size_t n;
  switch (c.below(4)) {
    case 0: n = c.below(3); break;
    case 1: n = c.size(500); break;
    case 2: n = SIZE_MAX / sizeof(T) + c.below(70); break; // product around or past the end of size_t
    default: n = (SIZE_MAX / sizeof(T) + 1) / (1 + c.below(8)) + c.below(4); break;
  }
  std::size_t cur = a.getCurrentSize(), cnt = a.getAllocationCount();
  c.trace("allocate %zu objects of %zu bytes", n, sizeof(T));
  bool big = n > (std::size_t{1} << 30);
  T* p = nullptr;
  try {
    p = t.allocate(n);
  } catch (std::exception&) {
    PCHECK(c, big, "refused", "%zu objects of %zu bytes were refused", n, sizeof(T));
    PCHECK(c, a.getCurrentSize() == cur && a.getAllocationCount() == cnt, "refused-changed", "a refused allocation changed the statistics");
    c.label("refused");
    c.nontrivial();
    return;
  }
  PCHECK(c, !big, "overflow", "allocate(%zu) of objects of %zu bytes succeeded; the record says %zu bytes", n, sizeof(T), rm.getSize(p));
  PCHECK(c, rm.getSize(p) == n * sizeof(T), "record", "allocate(%zu) of objects of %zu bytes made a record of %zu bytes", n, sizeof(T), rm.getSize(p));
  PCHECK(c, rm.getAllocator((void*)p).getId() == a.getId(), "record", "the memory belongs to another allocator");
  memset((void*)p, 1, n * sizeof(T));
  TypedAllocator<int> i1(a);
  TypedAllocator<Big> i2(b);
  TypedAllocator<double> re(t);
  PCHECK(c, t == i1 && !(t != i1) && re == t && !(re != t), "equal", "typed allocators over one allocator are not equal");
  if (a.getId() != b.getId()) PCHECK(c, t != i2 && !(t == i2), "equal", "typed allocators over different allocators are equal");
  if (c.chance(1, 2)) {
    typename std::allocator_traits<TypedAllocator<int>>::template rebind_alloc<T> rb(i1);
    rb.deallocate(p, n);
    PCHECK(c, a.getCurrentSize() == cur && a.getAllocationCount() == cnt, "dealloc", "deallocating through a rebound allocator did not undo the allocation");
  } else
    keep.push_back({p, n});
}

void direct(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  Pools pools = make(c);
  std::vector<std::pair<void*, std::size_t>> keep;
  while (c.more(30)) {
    c.step();
    Allocator a = c.pick(pools.v), b = c.pick(pools.v);
    switch (c.below(6)) {
      case 0: direct_one<char>(c, a, b, keep); break;
      case 1: direct_one<Odd>(c, a, b, keep); break;
      case 2: direct_one<int>(c, a, b, keep); break;
      case 3: direct_one<double>(c, a, b, keep); break;
      case 4: direct_one<Big>(c, a, b, keep); break;
      default: direct_one<std::uint64_t[16]>(c, a, b, keep); break;
    }
  }
  for (auto& k : keep) rm.deallocate(k.first);
}

} // namespace

int main(int argc, char** argv)
{
  Settings s;
  return run_main(argc, argv,
                  {{"vector", 2, 16,
                    [](Ctx& c) {
                      switch (c.below(3)) {
                        case 0: sequence<int, Vec>(c, "vector<int>"); break;
                        case 1: sequence<Big, Vec>(c, "vector<40 bytes>"); break;
                        default: sequence<Odd, Vec>(c, "vector<3 bytes>"); break;
                      }
                    },
                    "more than five operations"},
                   {"list", 1, 16, [](Ctx& c) { sequence<Big, Lst>(c, "list"); }, "more than five operations"},
                   {"deque", 1, 16, [](Ctx& c) { sequence<double, Deq>(c, "deque"); }, "more than five operations"},
                   {"maps", 2, 16, maps, "more than five operations"},
                   {"direct", 2, 16, direct, "a request whose byte count does not fit was refused"}},
                  s);
}
