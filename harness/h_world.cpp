// Model-based histories over generated stacks of allocators. One generator and one reference model (world.hpp);
// each property's suite chooses the mix of operations and the groups of checks that decide it.
#include "world.hpp"

#include "umpire/resource/HostResourceFactory.hpp"

using namespace world;

namespace {

enum Op {
  O_ALLOC, O_NAMED, O_FREE, O_ZERO, O_FREEZERO, O_RELEASE, O_COALESCE, O_REALLOC, O_MOVE, O_COPY, O_MEMSET, O_LOOKUP,
  O_MISUSE, O_FAULT, O_HUGE, O_MAKE, O_DRAIN, O_COUNT
};

struct Suite {
  const char* name;
  unsigned groups;
  std::vector<Kind> kinds;
  unsigned w[O_COUNT];
  bool faults;     // groups decided only from the first failed operation on
  bool huge;
  bool host;       // include the HOST resource itself
  unsigned max_nodes;
  const char* rule;
};

struct Game {
  Ctx& c;
  const Suite& s;
  World w;
  unsigned failed_ops{0}, n_huge{0}, n_vast{0}, n_crowd{0}, n_misuse{0}, n_copy{0}, n_realloc{0}, n_lookup{0}, n_fired{0}, n_zero{0}, n_full{0};
  std::vector<Addr> dead; // addresses that were live once
  bool armed{false};

  Game(Ctx& ctx, const Suite& su) : c(ctx), s(su), w(ctx) { w.groups = s.faults ? G_FAULT : s.groups; }

  void arm()
  {
    ++failed_ops;
    if (s.faults) w.groups = s.groups;
  }

  bool any_fault()
  {
    for (auto& n : w.nodes)
      if (n->below && (n->below->fail_next || n->below->budget != SIZE_MAX)) return true;
    return false;
  }
  std::size_t denials()
  {
    std::size_t d = 0;
    for (auto& n : w.nodes)
      if (n->below) d += n->below->denied;
    for (auto* f : w.failed_spies) d += f->denied;
    return d;
  }

  void topology()
  {
    if (s.host && !w.vast) w.make_host();
    unsigned leaves = c.chance(1, 4) ? 2 : 1;
    for (unsigned i = 0; i < leaves; ++i) w.make_leaf();
    unsigned n = static_cast<unsigned>(c.range(1, s.max_nodes));
    for (unsigned i = 0; i < n; ++i) make_one();
  }

  void make_one()
  {
    int parent;
    // usually on a leaf or on the newest strategy, so stacks get deep as well as wide
    if (w.nodes.size() > 1 && c.chance(1, 3))
      parent = static_cast<int>(w.nodes.size()) - 1;
    else
      parent = static_cast<int>(c.below(w.nodes.size()));
    std::vector<Kind> ok;
    for (Kind k : w.stackable(parent))
      for (Kind a : s.kinds)
        if (a == k) ok.push_back(k);
    if (ok.empty()) {
      parent = s.host && !w.vast ? 1 : 0;
      ok = s.kinds;
    }
    Kind k = ok[c.below(ok.size())];
    std::size_t before = denials();
    bool fault = s.faults && c.chance(1, 3);
    if (fault) {
      unsigned ahead = static_cast<unsigned>(c.below(3));
      w.before_construction = [ahead](Node& n) {
        n.below->grace = ahead;
        n.below->fail_next = 1;
      };
    }
    int i = w.make_strategy(k, parent);
    w.before_construction = nullptr;
    if (i >= 0) {
      w.node(i).below->fail_next = 0;
      w.node(i).below->grace = 0;
      Node& n = w.node(i);
      // what the constructor took
      if (n.kind == K_FIXED)
        n.actual_block = n.al.getActualSize();
    } else {
      c.label("construction-refused");
      arm();
    }
    (void)before;
    after("construction");
  }

  Node* pick_node(bool need_below = false)
  {
    if (need_below) {
      std::vector<int> v;
      for (auto& n : w.nodes)
        if (n->below) v.push_back(n->id);
      return v.empty() ? nullptr : &w.node(v[c.below(v.size())]);
    }
    return &w.node(static_cast<int>(w.nodes.size() - 1 - c.below(w.nodes.size())));
  }

  // Checks that run after every operation.
  void after(const char* when, int releasing = -1)
  {
    for (auto* f : w.failed_spies)
      if (!f->error.empty()) w.violated(G_PARENT, "parent-protocol", "%s", f->error.c_str());
    w.check_spies();
    w.sync_pools(releasing);
    if (s.groups & (G_STATS | G_POOL)) {
      for (auto& n : w.nodes) {
        if (s.groups & G_STATS) w.check_stats(*n, when);
        if ((s.groups & G_POOL) && is_pool(n->kind)) w.check_pool(*n, when);
        if (s.groups & G_POOL) check_actual(*n, when);
      }
    }
  }

  void check_actual(Node& n, const char* when)
  {
    if (!n.below || n.kind == K_SPY) return;
    std::size_t a = n.al.getActualSize();
    switch (n.kind) {
      case K_FIXED:
        WCHECK(w, G_POOL, a == n.below->live.size() * n.actual_block, "actual-size",
               "%s: %s reports actual size %zu while it holds %zu blocks; with one block it reported %zu", when,
               n.name.c_str(), a, n.below->live.size(), n.actual_block);
        break;
      case K_NAMED: case K_LIMIT: case K_TSAFE: case K_ALIGN: case K_SHIM: case K_SLOT:
        WCHECK(w, G_POOL, a == n.al.getCurrentSize(), "actual-size", "%s: %s reports actual size %zu, current size %zu",
               when, n.name.c_str(), a, n.al.getCurrentSize());
        break;
      case K_MIXED:
        WCHECK(w, G_POOL, a >= n.meter.bytes && a + n.below->live.size() * n.align >= n.below->outstanding && a <= n.below->outstanding + n.below->live.size() * 64 + 4096, "actual-size",
               "%s: %s reports actual size %zu with %zu bytes in use and %zu held", when, n.name.c_str(), a,
               n.meter.bytes, n.below->outstanding);
        break;
      default: break;
    }
  }

  // --- allocation with all its oracles -----------------------------------------------------------------
  struct Before {
    std::size_t denied, calls, actual;
    World::Free f;
    bool fault;
    std::size_t slot_blocks;
  };

  World::Result do_alloc(Node& n, std::size_t bytes, const std::string* name)
  {
    Before b{denials(), n.below ? n.below->calls_alloc : 0, 0, {}, any_fault(), n.below ? n.below->live.size() : 0};
    std::size_t out0 = n.below ? n.below->outstanding : 0;
    bool pool = is_pool(n.kind);
    if (pool) {
      b.f = w.pool_model(n);
      b.actual = b.f.actual;
    }
    // Exact prediction for a pool whose parent is bounded by a budget.
    int must = -1;
    std::size_t want = 0;
    if (pool && bytes) {
      std::size_t r = round_up(bytes, n.align);
      want = std::max(r, b.actual == 0 ? n.first : n.next);
      if (r <= b.f.largest)
        must = 1;
      else if (only_budget(n)) {
        std::size_t need = want + n.align;
        std::size_t rel = 0; // what giving up the free blocks yields
        std::size_t kept = out0;
        for (auto& pb : n.blocks)
          if (block_free(n, pb)) rel += n.below->live.at(pb.base).size;
        kept -= rel;
        std::size_t bud = n.below->budget;
        must = (need <= bud && kept <= bud - need) ? 1 : 0;
      }
    }
    if (must < 0 && !b.fault && w.must_succeed(n, bytes)) must = 1;
    if (bytes == 0) must = 1;
    if (n.kind == K_MONO && bytes && !b.fault) must = n.meter.ever + bytes <= n.capacity;
    if (n.kind == K_LIMIT && bytes && n.meter.bytes + bytes > n.limit) must = 0;
    int slot = -1;
    if (n.kind == K_SLOT && bytes) slot = slot_prediction(n, bytes);
    if (slot >= 0 && !(slot == 1 && b.fault)) must = slot == 0 ? 0 : (slot == 2 || w.must_succeed_above(n)) ? 1 : -1;

    World::Result r = w.alloc(n, bytes, name);
    if (!r.ok) {
      if (must == 1)
        w.violated(must_group(n), "refused", "%s refused %zu bytes it has to be able to serve: %s", n.name.c_str(), bytes,
                   r.what.c_str());
      c.label("refused");
      ++w.n_fail;
      if (denials() > b.denied) c.label("denied-by-parent");
      arm();
      WCHECK(w, G_FAULT | G_LIMIT | G_CAP, r.std_type, "exception-type", "%s refused %zu bytes with a foreign exception: %s",
             n.name.c_str(), bytes, r.what.c_str());
      if (r.oom)
        WCHECK(w, G_FAULT, r.err_id == n.al.getId() && r.err_size == bytes, "error-details",
               "out_of_memory_error carries allocator id %d and size %zu, the failed request was %s (id %d) size %zu",
               r.err_id, r.err_size, n.name.c_str(), n.al.getId(), bytes);
      if (pool && denials() > b.denied && !n.below->grace) {
        w.check_spies();
        w.sync_pool(n);
        World::Free f = w.pool_model(n);
        WCHECK(w, G_FAULT, f.rel_blocks == 0, "kept-free-blocks",
               "%s gave up on %zu bytes while holding %zu entirely free blocks", n.name.c_str(), bytes, f.rel_blocks);
      }
      after("after a refused allocation");
      return r;
    }
    if (bytes >= std::size_t{1} << 30) {
      ++n_vast;
      c.label("vast-allocation");
    }
    if (must == 0)
      w.violated(must_group(n), "accepted", "%s served %zu bytes beyond what it may hand out", n.name.c_str(), bytes);
    if (n.kind == K_LIMIT)
      WCHECK(w, G_LIMIT, n.meter.bytes <= n.limit && n.below->outstanding <= n.limit, "over-limit",
             "%s has a limit of %zu bytes and %zu are in use", n.name.c_str(), n.limit, n.meter.bytes);
    if (n.kind == K_MONO && bytes) {
      Addr base = n.below->live.begin()->first;
      WCHECK(w, G_CAP, r.p == base + (n.meter.ever - bytes), "monotonic-place",
             "%s placed %zu bytes at offset %zd, %zu were handed out before", n.name.c_str(), bytes,
             (std::ptrdiff_t)(r.p - base), n.meter.ever - bytes);
      WCHECK(w, G_CAP, n.below->calls_alloc == 1, "monotonic-parent", "%s went to its parent again", n.name.c_str());
    }
    if (slot == 2)
      WCHECK(w, G_CAP, n.below->calls_alloc == b.calls, "slot-reuse", "%s took a new block for %zu bytes with a free slot of that size",
             n.name.c_str(), bytes);
    if (n.kind == K_SLOT)
      WCHECK(w, G_CAP, n.below->live.size() <= n.slots, "slot-count", "%s holds %zu blocks in %zu slots", n.name.c_str(),
             n.below->live.size(), n.slots);
    if (n.kind == K_FIXED && bytes) check_fixed_growth(n, b.calls, r.p);
    w.check_spies();
    if (pool && bytes) {
      std::size_t d = n.below->calls_alloc - b.calls;
      std::size_t rr = round_up(bytes, n.align);
      if (rr <= b.f.largest)
        WCHECK(w, G_GROW, d == 0, "needless-growth",
               "%s went to its parent for %zu bytes although a free piece of %zu was available", n.name.c_str(), bytes,
               b.f.largest);
      else if (!b.fault && denials() == b.denied && w.must_succeed_above(n)) {
        WCHECK(w, G_GROW, d == 1, "growth-calls", "%s made %zu requests to its parent for one allocation of %zu bytes",
               n.name.c_str(), d, bytes);
        std::size_t now = n.al.getActualSize();
        WCHECK(w, G_GROW, now - b.actual == want, "growth-size",
               "%s grew from %zu to %zu for a request of %zu bytes; first/next minimum %zu/%zu, alignment %zu",
               n.name.c_str(), b.actual, now, bytes, n.first, n.next, n.align);
      }
    }
    after("after an allocation");
    return r;
  }

  unsigned must_group(Node& n)
  {
    switch (n.kind) {
      case K_LIMIT: return G_LIMIT | G_SERVE;
      case K_MONO: case K_SLOT: case K_FIXED: case K_MIXED: return G_CAP | G_SERVE;
      default: return G_SERVE;
    }
  }

  // Does a pool draw from this allocator, directly or through others?
  bool pool_above(Node& n)
  {
    for (int ch : n.children) {
      Node& m = w.node(ch);
      if (is_pool(m.kind) || m.kind == K_MIXED || pool_above(m)) return true;
    }
    return false;
  }

  bool block_free(Node& n, const PoolBlock& pb)
  {
    for (Addr p : n.live)
      if (p >= pb.start && p < pb.start + pb.size) return false;
    for (int ch : n.children)
      for (auto& x : w.node(ch).below->live)
        if (x.first >= pb.start && x.first < pb.start + pb.size) return false;
    return true;
  }

  // Is the only obstacle between this pool and an unlimited leaf its own spy's budget?
  bool only_budget(Node& n)
  {
    if (n.below->fail_next || n.below->grace) return false;
    int at = n.parent;
    while (at >= 0) {
      Node& m = w.node(at);
      if (m.kind == K_MONO || m.kind == K_SLOT || m.kind == K_LIMIT || m.kind == K_MIXED) return false;
      if (m.below && (m.below->fail_next || m.below->budget != SIZE_MAX || m.below->grace)) return false;
      at = m.parent;
    }
    return true;
  }

  // 0: every slot is taken by another size or in use; 1: an empty slot; 2: a free slot of this size.
  int slot_prediction(Node& n, std::size_t bytes)
  {
    std::size_t in_use = 0;
    std::map<Addr, bool> busy;
    for (Addr p : n.live) busy[p] = true;
    for (int ch : n.children)
      for (auto& x : w.node(ch).below->live) busy[x.first] = true;
    for (auto& b : n.below->live) {
      bool u = busy.count(b.first);
      if (u) ++in_use;
      else if (b.second.size == bytes) return 2;
    }
    if (n.below->live.size() < n.slots) return 1;
    return 0;
  }

  void check_fixed_growth(Node& n, std::size_t calls0, Addr p)
  {
    std::size_t d = n.below->calls_alloc - calls0;
    if (d) {
      WCHECK(w, G_CAP, d == 1 || n.below->denied, "fixed-growth", "%s made %zu requests to its parent for one object",
             n.name.c_str(), d);
      WCHECK(w, G_CAP, n.below->last_request == n.obj * n.per_pool, "fixed-block",
             "%s asked its parent for %zu bytes, %zu objects of %zu bytes are configured", n.name.c_str(),
             n.below->last_request, n.per_pool, n.obj);
      // it may only grow when every block it had was full
      std::size_t cap = (n.below->live.size() - 1) * n.per_pool;
      std::size_t used = n.meter.count - n.zero - 1;
      WCHECK(w, G_CAP, used == cap, "fixed-waste", "%s took a new block with %zu of %zu objects in use", n.name.c_str(),
             used, cap);
    }
    auto b = n.below->live.upper_bound(p);
    if (b != n.below->live.begin()) {
      --b;
      WCHECK(w, G_CAP, (p - b->first) % n.obj == 0, "fixed-place", "%s placed an object %zu bytes into its block, objects have %zu",
             n.name.c_str(), (std::size_t)(p - b->first), n.obj);
    }
  }

  // --- deallocation, with the coalescing oracle --------------------------------------------------------
  struct Coal {
    bool pool{false};
    std::set<std::uint64_t> blocks, free;
    World::Free f;
    std::size_t suggested{0}, remaining{0}, frag{0};
    bool maybe{false}; // rounding of the percentage decides
    std::size_t calls_a, calls_d, denied;
  };

  Coal coalesce_model(Node& n)
  {
    Coal k;
    if (!is_pool(n.kind)) return k;
    k.pool = true;
    k.f = w.pool_model(n);
    k.calls_a = n.below->calls_alloc;
    k.calls_d = n.below->calls_dealloc;
    k.denied = denials();
    for (auto& b : n.blocks) {
      k.blocks.insert(b.serial);
      if (block_free(n, b)) k.free.insert(b.serial);
    }
    k.remaining = k.f.actual - k.f.rel_bytes;
    // largest free piece outside entirely free blocks
    {
      Node tmp_unused;
      (void)tmp_unused;
      k.frag = 0;
      std::map<Addr, std::size_t> used;
      for (Addr p : n.live) used[p] = round_up(w.live.at(p).n, n.align);
      for (int ch : n.children)
        for (auto& b : w.node(ch).below->live) used[b.first] = round_up(b.second.size, n.align);
      for (auto& b : n.blocks) {
        if (k.free.count(b.serial)) continue;
        Addr at = b.start;
        for (auto it = used.lower_bound(b.start); it != used.end() && it->first < b.start + b.size; ++it) {
          if (it->first > at) k.frag = std::max<std::size_t>(k.frag, it->first - at);
          at = it->first + it->second;
        }
        if (b.start + b.size > at) k.frag = std::max<std::size_t>(k.frag, b.start + b.size - at);
      }
    }
    std::size_t full = (n.heur == H_PCT || n.heur == H_BLK) ? k.f.actual : w.pool_stat(n).aligned_hwm;
    bool fire = false;
    switch (n.heur) {
      case H_DEFAULT: fire = k.f.actual == k.f.rel_bytes; break;
      case H_PCT: case H_PCT_HWM:
        if (n.heur_n == 0) fire = false;
        else if (n.heur_n == 100) fire = k.f.actual == k.f.rel_bytes;
        else {
          double t = static_cast<double>(k.f.actual) * n.heur_n / 100.0;
          double d = static_cast<double>(k.f.rel_bytes) - t;
          double tol = 1.5 + k.f.actual * 1e-6;
          fire = d >= 0;
          if (n.heur_n % 25 == 0 && k.f.actual < (1u << 22)) tol = 0; // 25, 50 and 75 % are exact
          if (d > -tol && d < tol) k.maybe = true;
          if (d < 0 && d > -1) k.maybe = true; // the threshold in whole bytes
        }
        break;
      default: fire = k.f.rel_blocks >= n.heur_n; break;
    }
    k.suggested = fire || k.maybe ? full : 0;
    return k;
  }

  void coalesce_verdict(Node& n, const Coal& k, const char* when)
  {
    if (!k.pool) return;
    w.check_spies();
    std::set<std::uint64_t> now;
    for (auto& b : n.below->live) now.insert(b.second.serial);
    std::size_t gone = 0, fresh = 0;
    bool freed_all = true;
    for (auto sr : k.blocks) {
      if (!now.count(sr)) {
        ++gone;
        WCHECK(w, G_HEUR, k.free.count(sr), "coalesced-live", "%s: %s gave back a block with live data", when, n.name.c_str());
      } else if (k.free.count(sr))
        freed_all = false;
    }
    for (auto sr : now)
      if (!k.blocks.count(sr)) ++fresh;
    bool traffic = n.below->calls_alloc != k.calls_a || n.below->calls_dealloc != k.calls_d;
    if (k.suggested == 0) {
      WCHECK(w, G_HEUR, !traffic, "coalesced-early",
             "%s: %s exchanged blocks with its parent (%zu back, %zu new) although its heuristic %d/%zu does not fire: "
             "%zu of %zu bytes and %zu blocks releasable", when, n.name.c_str(), gone, fresh, n.heur, n.heur_n,
             k.f.rel_bytes, k.f.actual, k.f.rel_blocks);
      return;
    }
    if (traffic) {
      ++n_fired;
      w.groups |= G_CONTENT; // live allocations are not affected
      w.verify_all("after coalescing");
      w.groups &= ~static_cast<unsigned>(G_CONTENT);
    }
    WCHECK(w, G_HEUR, fresh <= 1, "coalesced-many", "%s: %s took %zu new blocks in one coalescing", when, n.name.c_str(), fresh);
    if (k.maybe || k.f.rel_blocks < 2 || denials() != k.denied) return;
    c.label("coalesce-decided");
    WCHECK(w, G_HEUR, freed_all, "coalesced-part", "%s: %s coalesced but kept some of its %zu free blocks", when,
           n.name.c_str(), k.f.rel_blocks);
    if (!w.must_succeed_above(n) || any_fault()) return;
    std::size_t expect = k.remaining;
    if (k.remaining < k.suggested) {
      std::size_t need = round_up(k.suggested - k.remaining, n.align);
      if (need > k.frag) expect += std::max(need, k.remaining == 0 ? n.first : n.next);
    }
    std::size_t got = n.al.getActualSize();
    WCHECK(w, G_HEUR, got == expect, "coalesced-size",
           "%s: %s holds %zu bytes after coalescing; before it held %zu, %zu of them in use blocks, suggested size %zu, expected %zu",
           when, n.name.c_str(), got, k.f.actual, k.remaining, k.suggested, expect);
  }

  void do_free(Addr p)
  {
    auto z = w.zero.find(p);
    if (z != w.zero.end()) {
      Node& n = w.node(z->second.node);
      std::size_t a = n.below ? n.below->calls_alloc + n.below->calls_dealloc : 0;
      std::size_t cs = n.al.getCurrentSize(), hw = n.al.getHighWatermark(), ct = n.al.getAllocationCount();
      w.dealloc(p, c.chance(1, 4));
      if (n.tracked)
        WCHECK(w, G_ZERO, n.al.getCurrentSize() == cs && n.al.getHighWatermark() == hw && n.al.getAllocationCount() + 1 == ct, "zero-counted",
               "freeing a zero-byte allocation took %s from size/high watermark/count %zu/%zu/%zu to %zu/%zu/%zu", n.name.c_str(), cs, hw, ct,
               n.al.getCurrentSize(), n.al.getHighWatermark(), n.al.getAllocationCount());
      std::size_t b = n.below ? n.below->calls_alloc + n.below->calls_dealloc : 0;
      WCHECK(w, G_ZERO, a == b, "zero-parent", "freeing a zero-byte allocation of %s reached its parent", n.name.c_str());
      if (n.tracked) {
        bool has = w.rm.hasAllocator((void*)p);
        WCHECK(w, G_ZERO, !has, "zero-still-there", "zero-byte allocation %p is still known after its deallocation", (void*)p);
      }
      after("after a zero-byte deallocation");
      return;
    }
    UserAlloc a = w.live.at(p);
    Node& n = w.node(a.node);
    bool via_rm = c.chance(1, 3);
    Coal k;
    if (w.groups & G_HEUR) {
      // the state the heuristic is asked about: this allocation gone, nothing else changed
      w.verify(a, "before deallocate");
      World::Saved sv = w.hide(p);
      k = coalesce_model(n);
      w.unhide(sv);
    }
    dead.push_back(p);
    std::size_t den = denials();
    w.dealloc(p, via_rm);
    if (denials() != den) {
      c.label("denied-in-deallocate");
      arm();
    }
    if (w.groups & G_HEUR) coalesce_verdict(n, k, "after a deallocation");
    after("after a deallocation");
  }

  void do_release(Node& n)
  {
    c.trace("%s.release()", n.name.c_str());
    Coal k;
    try {
      n.al.release();
    } catch (std::exception& e) {
      w.violated(G_PARENT, "release-throws", "release() of %s threw: %s", n.name.c_str(), e.what());
    }
    ++w.n_release;
    w.check_spies();
    w.sync_pools(n.id);
    if (is_pool(n.kind)) {
      World::Free f = w.pool_model(n);
      WCHECK(w, G_PARENT, f.rel_blocks == 0, "release-keeps", "%s kept %zu entirely free blocks after release()",
             n.name.c_str(), f.rel_blocks);
    }
    if (n.kind == K_FIXED) {
      for (auto& b : n.below->live) {
        bool used = false;
        for (Addr p : n.live)
          if (p - b.first < b.second.size) used = true;
        for (int ch : n.children)
          for (auto& x : w.node(ch).below->live)
            if (x.first - b.first < b.second.size) used = true;
        WCHECK(w, G_PARENT, used, "release-keeps", "%s kept an entirely free block after release()", n.name.c_str());
      }
    }
    after("after release()", n.id);
  }

  void do_coalesce(Node& n)
  {
    bool cap = is_pool(n.kind);
    Coal k;
    if (cap) k = coalesce_model(n);
    bool threw = false;
    c.trace("coalesce(%s)", n.name.c_str());
    if (c.chance(1, 2)) {
      bool r = umpire::try_coalesce(n.al);
      WCHECK(w, G_HEUR, r == cap, "try-coalesce", "try_coalesce(%s) returned %d", n.name.c_str(), r);
    } else {
      try {
        umpire::coalesce(n.al);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      WCHECK(w, G_HEUR, threw == !cap, "coalesce-unsupported", "coalesce(%s) %s", n.name.c_str(), threw ? "threw" : "did not throw");
    }
    if (w.groups & G_HEUR) coalesce_verdict(n, k, "after coalesce()");
    after("after coalesce()");
  }

  // --- zero-byte ---------------------------------------------------------------------------------------
  void do_zero(Node& n)
  {
    ++n_zero;
    if ((s.groups & G_ZERO) && c.chance(1, 150)) return zero_burst(n);
    std::size_t a = n.below ? n.below->calls_alloc + n.below->calls_dealloc : 0;
    bool named = c.chance(1, 4);
    std::string nm = "zero" + std::to_string(w.serial);
    std::size_t cs = n.al.getCurrentSize(), hw = n.al.getHighWatermark(), ct = n.al.getAllocationCount();
    World::Result r = w.raw_alloc(n, 0, named ? &nm : nullptr);
    if (r.ok && n.tracked)
      WCHECK(w, G_ZERO, n.al.getCurrentSize() == cs && n.al.getHighWatermark() == hw && n.al.getAllocationCount() == ct + 1, "zero-counted",
             "a zero-byte allocation took %s from size/high watermark/count %zu/%zu/%zu to %zu/%zu/%zu", n.name.c_str(), cs, hw, ct,
             n.al.getCurrentSize(), n.al.getHighWatermark(), n.al.getAllocationCount());
    c.trace("%s.allocate(0) -> %s", n.name.c_str(), r.ok ? w.ptr(r.p).c_str() : "error");
    WCHECK(w, G_ZERO, r.ok, "zero-refused", "%s refused a zero-byte allocation: %s", n.name.c_str(), r.what.c_str());
    if (!r.ok) return;
    WCHECK(w, G_ZERO, r.p != 0, "zero-null", "%s returned a null pointer for zero bytes", n.name.c_str());
    WCHECK(w, G_ZERO, !w.zero.count(r.p), "zero-shared", "%s returned %p for zero bytes twice", n.name.c_str(), (void*)r.p);
    auto it = w.live.upper_bound(r.p);
    if (it != w.live.begin()) {
      --it;
      WCHECK(w, G_ZERO, r.p - it->first >= it->second.n, "zero-inside", "zero-byte allocation %p lies inside live %p size %zu",
             (void*)r.p, (void*)it->first, it->second.n);
    }
    std::size_t b = n.below ? n.below->calls_alloc + n.below->calls_dealloc : 0;
    WCHECK(w, G_ZERO, a == b, "zero-parent", "a zero-byte allocation of %s reached its parent", n.name.c_str());
    w.book(n, r.p, 0, named ? nm : "");
    if (n.tracked && (s.groups & (G_ZERO | G_LOOKUP))) zero_lookup(w.zero.at(r.p));
    after("after a zero-byte allocation");
  }
  // more live zero-byte allocations than one block of their pool holds
  void zero_burst(Node& n)
  {
    std::size_t k = c.range(1500, 2500);
    c.trace("%zu zero-byte allocations from %s", k, n.name.c_str());
    for (std::size_t i = 0; i < k; ++i) {
      World::Result r = w.raw_alloc(n, 0, nullptr);
      WCHECK(w, G_ZERO, r.ok && r.p, "zero-refused", "%s refused a zero-byte allocation while %zu were live", n.name.c_str(), w.zero.size());
      WCHECK(w, G_ZERO, !w.zero.count(r.p), "zero-shared", "%s returned %p for zero bytes twice", n.name.c_str(), (void*)r.p);
      w.book(n, r.p, 0, "");
    }
    for (auto& u : w.zero) zero_lookup(u.second);
    std::vector<Addr> v;
    for (auto& u : w.zero)
      if (v.size() < 50 || u.first % 3) v.push_back(u.first);
    for (Addr p : v) {
      UserAlloc u = w.zero.at(p);
      Node& o = w.node(u.node);
      try {
        o.al.deallocate((void*)p);
      } catch (std::exception& e) {
        w.violated(G_ZERO, "zero-free", "freeing zero-byte allocation %p threw: %s", (void*)p, e.what());
      }
      w.unbook(p);
    }
    for (auto& u : w.zero) zero_lookup(u.second);
    c.label("zero-burst");
    after("after many zero-byte allocations");
  }
  void zero_lookup(const UserAlloc& u)
  {
    void* p = (void*)u.p;
    Node& n = w.node(u.node);
    if (!n.tracked) return;
    try {
      bool ok = w.rm.hasAllocator(p) && w.rm.getSize(p) == 0 && n.al.getSize(p) == 0 && w.rm.getAllocator(p).getName() == n.name &&
                w.rm.findAllocationRecord(p)->ptr == p;
      WCHECK(w, G_ZERO | G_LOOKUP, ok, "zero-lookup", "zero-byte allocation %p of %s is not found under its allocator with size 0", p,
             n.name.c_str());
    } catch (umpire::runtime_error& e) {
      w.violated(G_ZERO | G_LOOKUP, "zero-lookup", "lookup of zero-byte allocation %p threw: %s", p, e.what());
    }
  }

  // --- misuse ------------------------------------------------------------------------------------------
  struct Snap {
    std::vector<std::size_t> v;
    bool operator==(const Snap& o) const { return v == o.v; }
  };
  Snap snap()
  {
    Snap r;
    for (auto& n : w.nodes) {
      r.v.push_back(n->al.getCurrentSize());
      r.v.push_back(n->al.getHighWatermark());
      r.v.push_back(n->al.getAllocationCount());
      r.v.push_back(n->al.getActualSize());
      if (n->below) {
        r.v.push_back(n->below->calls_alloc);
        r.v.push_back(n->below->calls_dealloc);
        r.v.push_back(n->below->outstanding);
      }
    }
    return r;
  }

  void do_misuse()
  {
    ++n_misuse;
    Snap s0 = snap();
    static char outside[64];
    void* bad = nullptr;
    const char* what = "";
    Node* via = pick_node();
    for (unsigned tries = 0; !via->tracked; ++tries) {
      if (tries > 8) return;
      via = pick_node();
    }
    unsigned kind = static_cast<unsigned>(c.below(6));
    switch (kind) {
      case 0: // not ours at all
        bad = &outside[c.below(64)];
        what = "a pointer umpire never returned";
        break;
      case 1: // freed before
        if (dead.empty()) return;
        bad = (void*)dead[c.below(dead.size())];
        if (w.live.count((Addr)bad) || w.zero.count((Addr)bad)) return;
        what = "a pointer that was already deallocated";
        break;
      case 2: { // inside
        if (w.live.empty()) return;
        UserAlloc& u = w.live.at(w.some_live());
        if (u.n < 2 || !w.node(u.node).tracked) return;
        bad = (void*)(u.p + 1 + c.below(u.n - 1));
        if (c.chance(1, 2)) via = &w.node(u.node);
        what = "an offset pointer";
        break;
      }
      case 3: { // the other allocator's
        if (w.live.empty()) return;
        UserAlloc& u = w.live.at(w.some_live());
        if (u.node == via->id) return;
        if (!w.node(u.node).tracked) return;
        bad = (void*)u.p;
        what = "another allocator's pointer";
        break;
      }
      case 4: { // the other allocator's zero-byte pointer
        if (w.zero.empty()) return;
        UserAlloc& u = w.zero.at(w.some_zero());
        if (u.node == via->id || !w.node(u.node).tracked) return;
        bad = (void*)u.p;
        what = "another allocator's zero-byte pointer";
        break;
      }
      default: { // just past the end / just before
        if (w.live.empty()) return;
        UserAlloc& u = w.live.at(w.some_live());
        bad = (void*)(c.chance(1, 2) ? u.p + u.n : u.p - 1);
        if (w.live.count((Addr)bad) || w.zero.count((Addr)bad)) return;
        what = "a pointer next to an allocation";
        break;
      }
    }
    bool threw = false;
    bool through_rm = kind != 3 && kind != 4 && c.chance(1, 3);
    c.trace("%s.deallocate(%p) (%s)", through_rm ? "rm" : via->name.c_str(), bad, what);
    try {
      if (through_rm)
        w.rm.deallocate(bad);
      else
        via->al.deallocate(bad);
    } catch (umpire::runtime_error&) {
      threw = true;
    }
    WCHECK(w, G_MISUSE, threw, "misuse-accepted", "deallocating %s (%p) through %s was accepted", what, bad,
           through_rm ? "the resource manager" : via->name.c_str());
    WCHECK(w, G_MISUSE | G_OBSERVE, snap() == s0, "misuse-effect", "a rejected deallocation of %s through %s changed the allocators' state", what,
           via->name.c_str());
    c.label(what);
    if (s.groups & G_MISUSE) {
      // everything live is still known, with its owner, size and name, and freeable later
      unsigned g = w.groups;
      w.groups |= G_LOOKUP | G_CONTENT;
      for (auto& u : w.live)
        if (w.node(u.second.node).tracked) w.check_lookup(u.first);
      for (auto& u : w.zero) zero_lookup(u.second);
      w.groups = g;
    }
    after("after a rejected deallocation");
  }

  // --- realloc / move ----------------------------------------------------------------------------------
  void do_realloc()
  {
    ++n_realloc;
    unsigned g = G_REALLOC;
    camp::resources::Resource ctx{camp::resources::Host{}};
    unsigned how = static_cast<unsigned>(c.weighted({10, 2, 2, 2, 2, 2}));
    if (how == 1) { // null pointer: plain allocation
      Node* n = pick_node();
      for (unsigned t = 0; !n->tracked && t < 8; ++t) n = pick_node();
      if (!n->tracked) return;
      std::size_t bytes = w.gen_size(*n);
      if (w.total + bytes > w.max_total) return;
      bool with = c.chance(1, 2);
      if (!with) w.rm.setDefaultAllocator(n->al);
      bool fault = any_fault();
      std::size_t den = denials();
      try {
        bool as = c.chance(1, 4);
        void* p = with ? (as ? w.rm.reallocate(nullptr, bytes, n->al, ctx) : w.rm.reallocate(nullptr, bytes, n->al))
                       : (as ? w.rm.reallocate(nullptr, bytes, ctx) : w.rm.reallocate(nullptr, bytes));
        c.trace("reallocate(nullptr, %zu) from %s -> %p", bytes, n->name.c_str(), p);
        w.book(*n, (Addr)p, bytes, "");
        w.check_lookup((Addr)p);
      } catch (std::exception& e) {
        c.trace("reallocate(nullptr, %zu) from %s threw", bytes, n->name.c_str());
        WCHECK(w, g, fault || denials() != den || !w.must_succeed(*n, bytes), "realloc-null", "reallocate(nullptr, %zu) from %s threw %s",
               bytes, n->name.c_str(), e.what());
        arm();
      }
      after("after reallocate(nullptr)");
      return;
    }
    bool from_zero = !w.zero.empty() && (w.live.empty() || c.chance(1, 6));
    if (!from_zero && w.live.empty()) return;
    UserAlloc u = from_zero ? w.zero.at(w.some_zero()) : w.live.at(w.some_live());
    Node& n = w.node(u.node);
    if (!n.tracked) return;
    if (how == 2) { // wrong allocator
      Node* o = pick_node();
      if (o->id == n.id) return;
      bool threw = false;
      Snap s0 = snap();
      c.trace("reallocate(%p, .., %s) which belongs to %s", (void*)u.p, o->name.c_str(), n.name.c_str());
      try {
        if (c.chance(1, 4)) w.rm.reallocate((void*)u.p, u.n + 1, o->al, ctx);
        else w.rm.reallocate((void*)u.p, u.n + 1, o->al);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      WCHECK(w, g, threw, "realloc-wrong", "reallocate(%p) with an allocator that does not own it was accepted", (void*)u.p);
      WCHECK(w, g, snap() == s0, "realloc-wrong", "a rejected reallocate changed the allocators' state");
      if (!from_zero) w.verify(u, "after a rejected reallocate");
      w.check_lookup(u.p);
      after("after a rejected reallocate");
      return;
    }
    if (how == 3) { // offset
      if (u.n < 2) return;
      bool threw = false;
      Snap s0 = snap();
      Addr q = u.p + 1 + c.below(u.n - 1);
      std::size_t ns = c.chance(1, 4) ? 0 : w.gen_size(n);
      c.trace("reallocate(%p + %zu, %zu)", (void*)u.p, (std::size_t)(q - u.p), ns);
      try {
        w.rm.reallocate((void*)q, ns);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      WCHECK(w, g, threw, "realloc-offset", "reallocate of the offset pointer %p (+%zu) was accepted", (void*)u.p, (std::size_t)(q - u.p));
      WCHECK(w, g, snap() == s0, "realloc-offset", "a rejected reallocate changed the allocators' state");
      w.verify(u, "after a rejected reallocate");
      w.check_lookup(u.p);
      after("after a rejected reallocate");
      return;
    }
    std::size_t bytes = how == 4 ? 0 : w.gen_size(n);
    if (how == 5 && !n.fixed_req) bytes = std::max<std::size_t>(1, u.n + c.below(5) - 2); // close to the old size
    if (w.total + bytes > w.max_total) return;
    if (bytes > (std::size_t{1} << 41)) bytes = u.n;
    if (w.vast) {
      if (std::min(bytes, u.n) > (std::size_t{1} << 20)) return; // the contents are too much to move
    } else if (bytes > (std::size_t{1} << 27))
      bytes = u.n;
    if (n.fixed_req && bytes) bytes = n.fixed_req;
    if (from_zero || bytes == 0) g |= G_ZERO;
    bool fault = any_fault();
    std::size_t den = denials();
    bool must = bytes == 0 || (!fault && w.must_succeed(n, bytes));
    if (!from_zero) w.verify(u, "before reallocate");
    void* p2 = nullptr;
    bool ok = false;
    std::string err;
    bool in_rm = c.chance(1, 2), async = c.chance(1, 4);
    Snap s0 = snap();
    w.moving = u.p; // its block may go back once the contents are moved
    try {
      p2 = in_rm ? (async ? w.rm.reallocate((void*)u.p, bytes, ctx) : w.rm.reallocate((void*)u.p, bytes))
                 : (async ? w.rm.reallocate((void*)u.p, bytes, n.al, ctx) : w.rm.reallocate((void*)u.p, bytes, n.al));
      ok = true;
    } catch (std::exception& e) {
      err = e.what();
    }
    w.moving = 0;
    c.trace("reallocate(%p size %zu of %s, %zu) -> %s", (void*)u.p, u.n, n.name.c_str(), bytes, ok ? w.ptr((Addr)p2).c_str() : "threw");
    if (!ok) {
      WCHECK(w, g, !must, "realloc-refused", "reallocate(%p, %zu) of %s threw: %s", (void*)u.p, bytes, n.name.c_str(), err.c_str());
      arm();
      if (!from_zero) w.verify(u, "after a failed reallocate");
      w.check_lookup(u.p);
      if (w.groups & g) {
        unsigned sv = w.groups;
        w.groups |= G_STATS;
        w.check_stats(n, "after a failed reallocate");
        w.groups = sv;
      }
      after("after a failed reallocate");
      return;
    }
    WCHECK(w, g, p2 != nullptr, "realloc-null-result", "reallocate(%p, %zu) returned null", (void*)u.p, bytes);
    if (!from_zero && bytes) {
      unsigned sv = w.groups;
      if (sv & g) w.groups |= G_CONTENT;
      // the shadow is keyed by the old address
      w.verify_at(u, (Addr)p2, "after reallocate", std::min(u.n, bytes));
      w.groups = sv;
    }
    bool same = (Addr)p2 == u.p;
    if (n.kind == K_HOST && bytes && u.n) {
      std::size_t hi = n.meter.bytes + bytes, prev = n.meter.max_bytes;
      w.unbook(u.p);
      w.book(n, (Addr)p2, bytes, "");
      // whether the old and the new block existed side by side is the C library's business
      std::size_t rep = n.al.getHighWatermark();
      if (rep >= std::max(prev, n.meter.bytes) && rep <= std::max(prev, hi)) n.meter.max_bytes = rep;
    } else if (bytes == 0) {
      w.unbook(u.p);
      w.book(n, (Addr)p2, 0, "");
    } else {
      WCHECK(w, G_PLACE | g, !same, "realloc-same", "reallocate returned the old pointer although both allocations existed");
      w.book(n, (Addr)p2, bytes, "");
      w.unbook(u.p);
    }
    if (!same) {
      dead.push_back(u.p);
      const UserAlloc* o = w.owner_of(u.p);
      bool has = w.rm.hasAllocator((void*)u.p);
      WCHECK(w, g, has == (o != nullptr), "realloc-old", "the old pointer %p is still known after reallocate", (void*)u.p);
    }
    {
      unsigned sv = w.groups;
      if (sv & g) w.groups |= G_LOOKUP;
      if (bytes) w.check_lookup((Addr)p2);
      else zero_lookup(w.zero.at((Addr)p2));
      if (bytes) w.check_lookup((Addr)p2 + bytes - 1);
      if (sv & g) {
        w.groups |= G_STATS;
        w.check_stats(n, "after reallocate");
      }
      w.groups = sv;
    }
    c.label(bytes == 0 ? "realloc-to-zero" : from_zero ? "realloc-from-zero" : bytes < u.n ? "realloc-shrink" : "realloc-grow");
    after("after reallocate");
  }

  void do_move()
  {
    ++n_realloc;
    unsigned g = G_REALLOC;
    bool from_zero = !w.zero.empty() && (w.live.empty() || c.chance(1, 8));
    if (!from_zero && w.live.empty()) return;
    UserAlloc u = from_zero ? w.zero.at(w.some_zero()) : w.live.at(w.some_live());
    Node& n = w.node(u.node);
    if (!n.tracked) return;
    Node* d = pick_node();
    if (!d->tracked) return;
    if (d->fixed_req && d->fixed_req != u.n && u.n) return;
    if (w.total + u.n > w.max_total) return;
    if (w.vast && u.n > (std::size_t{1} << 20) && d->id != n.id) return;
    Addr q = u.p;
    if (from_zero) g |= G_ZERO;
    bool offset = u.n > 1 && c.chance(1, 6);
    if (offset) q += 1 + c.below(u.n - 1);
    bool fault = any_fault();
    bool must = u.n == 0 || (!fault && w.must_succeed(*d, u.n));
    void* p2 = nullptr;
    bool ok = false;
    std::string err;
    Snap s0 = snap();
    if (!from_zero) w.verify(u, "before move");
    w.moving = u.p;
    // the new allocation exists before the old one is given up
    std::size_t met = d->kind == K_FIXED ? d->obj : u.n;
    Meter before_move = d->meter;
    if (u.n && d->id != n.id && !offset) d->meter.add(met);
    try {
      p2 = w.rm.move((void*)q, d->al);
      ok = true;
    } catch (std::exception& e) {
      err = e.what();
    }
    w.moving = 0;
    if (!ok) d->meter = before_move;
    else if (u.n && d->id != n.id && !offset) d->meter.sub(met), d->meter.ever -= met;
    c.trace("move(%p+%zu size %zu of %s, %s) -> %s", (void*)u.p, (std::size_t)(q - u.p), u.n, n.name.c_str(), d->name.c_str(),
            ok ? w.ptr((Addr)p2).c_str() : "threw");
    if (d->id == n.id) {
      WCHECK(w, g, ok && (Addr)p2 == q, "move-same", "move(%p) to its own allocator did not return the pointer", (void*)q);
      WCHECK(w, g, snap() == s0, "move-same", "move to its own allocator changed the allocators' state");
      after("after move");
      return;
    }
    if (offset) {
      WCHECK(w, g, !ok, "move-offset", "moving the offset pointer %p (+%zu) was accepted", (void*)u.p, (std::size_t)(q - u.p));
      WCHECK(w, g, snap() == s0, "move-offset", "a rejected move changed the allocators' state");
      w.verify(u, "after a rejected move");
      w.check_lookup(u.p);
      after("after a rejected move");
      return;
    }
    if (!ok) {
      WCHECK(w, g, !must, "move-refused", "move(%p size %zu, %s) threw: %s", (void*)u.p, u.n, d->name.c_str(), err.c_str());
      arm();
      if (!from_zero) w.verify(u, "after a failed move");
      w.check_lookup(u.p);
      after("after a failed move");
      return;
    }
    if (!from_zero) {
      unsigned sv = w.groups;
      if (sv & g) w.groups |= G_CONTENT;
      w.verify_at(u, (Addr)p2, "after move");
      w.groups = sv;
    }
    WCHECK(w, G_PLACE | g, (Addr)p2 != u.p, "move-in-place", "move to another allocator returned the old pointer");
    w.book(*d, (Addr)p2, u.n, "");
    w.unbook(u.p);
    dead.push_back(u.p);
    {
      unsigned sv = w.groups;
      if (sv & g) w.groups |= G_LOOKUP | G_STATS;
      const UserAlloc* o = w.owner_of(u.p);
      bool has = w.rm.hasAllocator((void*)u.p);
      WCHECK(w, g, has == (o != nullptr), "move-old", "the old pointer %p is still known after move", (void*)u.p);
      if (u.n) w.check_lookup((Addr)p2);
      else zero_lookup(w.zero.at((Addr)p2));
      if (sv & g) {
        w.check_stats(n, "after move");
        w.check_stats(*d, "after move");
      }
      w.groups = sv;
    }
    c.label("moved");
    after("after move");
  }

  // --- copy / memset -----------------------------------------------------------------------------------
  void do_copy()
  {
    if (w.live.size() < 2) return;
    UserAlloc a = w.live.at(w.some_live()), b = w.live.at(w.some_live());
    if (a.p == b.p || !w.node(a.node).tracked || !w.node(b.node).tracked) return;
    ++n_copy;
    std::size_t so = c.chance(1, 2) ? 0 : c.below(a.n), dof = c.chance(1, 2) ? 0 : c.below(b.n);
    std::size_t srem = a.n - so, drem = b.n - dof, len;
    switch (c.weighted({4, 3, 3, 2, 2})) {
      case 0: len = 0; break;
      case 1: len = 1 + c.below(std::min(srem, drem)); break;
      case 2: len = std::min(srem, drem); break;
      case 3: len = srem; break;
      default: len = drem + 1 + c.below(3); break; // past the destination
    }
    std::size_t eff = len == 0 ? srem : len;
    bool bad = eff > drem;
    if (!bad && eff > srem) return; // reading past the source is the caller's mistake
    std::vector<unsigned char> sa = w.shadow_of(a), sb = w.shadow_of(b);
    bool threw = false;
    unsigned how = static_cast<unsigned>(c.below(3));
    camp::resources::Resource ctx{camp::resources::Host{}};
    try {
      if (how == 2)
        w.rm.copy((void*)(b.p + dof), (void*)(a.p + so), ctx, len);
      else
        w.rm.copy((void*)(b.p + dof), (void*)(a.p + so), len);
    } catch (umpire::runtime_error&) {
      threw = true;
    }
    c.trace("copy(%p+%zu of %zu, %p+%zu of %zu, %zu)%s", (void*)b.p, dof, b.n, (void*)a.p, so, a.n, len, threw ? " threw" : "");
    WCHECK(w, G_COPY, threw == bad, "copy-bounds", "copy of %zu bytes (%zu asked) into %zu remaining bytes %s", eff, len, drem,
           threw ? "threw" : "was accepted");
    if (!bad) memcpy(sb.data() + dof, sa.data() + so, eff);
    w.shadow[b.p] = sb;
    unsigned sv = w.groups;
    if (sv & G_COPY) w.groups |= G_CONTENT;
    w.verify(a, "source after copy");
    w.verify(b, "destination after copy");
    w.groups = sv;
    c.label(bad ? "copy-too-long" : "copy-done");
    after("after copy");
  }

  void do_memset()
  {
    if (w.live.empty()) return;
    UserAlloc a = w.live.at(w.some_live());
    if (!w.node(a.node).tracked) return;
    ++n_copy;
    std::size_t off = c.chance(1, 2) ? 0 : c.below(a.n), rem = a.n - off, len;
    switch (c.weighted({4, 3, 3, 3})) {
      case 0: len = 0; break;
      case 1: len = 1 + c.below(rem); break;
      case 2: len = rem; break;
      default: len = rem + 1 + c.below(3); break;
    }
    int val = static_cast<int>(c.below(256));
    bool bad = len > rem, threw = false;
    std::size_t eff = len == 0 ? rem : len;
    std::vector<unsigned char> sa = w.shadow_of(a);
    camp::resources::Resource ctx{camp::resources::Host{}};
    try {
      if (c.chance(1, 3))
        w.rm.memset((void*)(a.p + off), val, ctx, len);
      else
        w.rm.memset((void*)(a.p + off), val, len);
    } catch (umpire::runtime_error&) {
      threw = true;
    }
    c.trace("memset(%p+%zu of %zu, %d, %zu)%s", (void*)a.p, off, a.n, val, len, threw ? " threw" : "");
    WCHECK(w, G_COPY, threw == bad, "memset-bounds", "memset of %zu bytes into %zu remaining bytes %s", len, rem,
           threw ? "threw" : "was accepted");
    if (!bad) memset(sa.data() + off, val, eff);
    w.shadow[a.p] = sa;
    unsigned sv = w.groups;
    if (sv & G_COPY) w.groups |= G_CONTENT;
    w.verify(a, "after memset");
    w.groups = sv;
    c.label(bad ? "memset-too-long" : "memset-done");
    after("after memset");
  }

  // --- huge requests -----------------------------------------------------------------------------------
  void do_huge()
  {
    Node* n = pick_node();
    if (n->fixed_req || n->kind == K_SPY) return;
    ++n_huge;
    std::size_t v;
    switch (c.below(6)) {
      case 0: v = SIZE_MAX - c.below(40); break;
      case 1: v = SIZE_MAX - c.below(5000); break;
      case 2: v = (std::size_t{1} << 63) + c.below(64) - 32; break;
      case 3: v = SIZE_MAX / 2 - c.below(2000); break;
      case 4: v = SIZE_MAX - (std::size_t{1} << c.range(4, 40)) + c.below(5) - 2; break;
      default: v = (std::size_t{1} << c.range(36, 62)) + c.below(3); break;
    }
    Snap s0 = snap();
    std::string nm = "huge";
    bool named = c.chance(1, 5), re = n->tracked && !n->live.empty() && c.chance(1, 4);
    World::Result r;
    if (re) {
      UserAlloc u = w.live.at(*n->live.begin());
      try {
        w.rm.reallocate((void*)u.p, v);
        r.ok = true;
      } catch (std::exception& e) {
        r.what = e.what();
      }
      c.trace("reallocate(%p size %zu of %s, %zu)%s", (void*)u.p, u.n, n->name.c_str(), v, r.ok ? " accepted" : " threw");
      if (!r.ok) {
        unsigned sv = w.groups;
        if (sv & (G_HUGE | G_REALLOC)) w.groups |= G_CONTENT | G_LOOKUP;
        w.verify(u, "after a refused reallocate");
        w.check_lookup(u.p);
        w.groups = sv;
      }
    } else {
      r = w.raw_alloc(*n, v, named ? &nm : nullptr);
      c.trace("%s.allocate(%zu)%s", n->name.c_str(), v, r.ok ? " accepted" : " threw");
    }
    WCHECK(w, G_HUGE, !r.ok, "huge-accepted", "%s served a request for %zu bytes", n->name.c_str(), v);
    if (r.ok) throw Abandon{};
    arm();
    Snap s1 = snap();
    // requests may have reached the parent and been refused there, and pools give up free blocks first: what users
    // can see of the amounts in use must not move
    for (std::size_t i = 0, j = 0; i < w.nodes.size(); ++i) {
      if (pool_above(*w.nodes[i])) {
        // the pool may have given free blocks back before its second try
        unsigned sv = w.groups;
        if (sv & (G_HUGE | G_REALLOC)) w.groups |= G_STATS;
        w.check_stats(*w.nodes[i], "after a refused huge request");
        w.groups = sv;
      } else
        WCHECK(w, G_HUGE | G_OBSERVE, s0.v[j] == s1.v[j] && s0.v[j + 1] == s1.v[j + 1] && s0.v[j + 2] == s1.v[j + 2], "huge-counted",
               "after a refused request of %zu bytes from %s, %s reports size/high watermark/count %zu/%zu/%zu, before %zu/%zu/%zu", v,
               n->name.c_str(), w.nodes[i]->name.c_str(), s1.v[j], s1.v[j + 1], s1.v[j + 2], s0.v[j], s0.v[j + 1], s0.v[j + 2]);
      j += w.nodes[i]->below ? 7 : 4;
    }
    after("after a refused huge request");
  }

  // --- faults ------------------------------------------------------------------------------------------
  void do_fault()
  {
    Node* n = pick_node(true);
    if (!n) return;
    switch (c.weighted({3, 3, 4, 2})) {
      case 0:
        for (auto& m : w.nodes)
          if (m->below) {
            m->below->fail_next = 0;
            m->below->grace = 0;
            m->below->budget = SIZE_MAX;
          }
        c.trace("faults cleared");
        break;
      case 1:
        n->below->budget = n->below->outstanding + (c.chance(1, 3) ? 0 : c.size(1 << 12));
        c.trace("memory below %s limited to %zu (%zu in use)", n->name.c_str(), n->below->budget, n->below->outstanding);
        break;
      case 2:
        n->below->fail_next = static_cast<unsigned>(c.range(1, 3));
        n->below->grace = static_cast<unsigned>(c.below(3));
        c.trace("below %s: %u requests succeed, then %u fail", n->name.c_str(), n->below->grace, n->below->fail_next);
        break;
      default:
        n->below->budget = SIZE_MAX;
        c.trace("memory below %s unlimited", n->name.c_str());
        break;
    }
  }

  // Copies and fills of a few bytes at offsets that need more than 32 bits.
  void vast_copy()
  {
    if (w.live.empty()) return;
    ++n_copy;
    UserAlloc a = w.live.at(w.some_live()), b = w.live.at(w.some_live());
    auto place = [&](const UserAlloc& u) {
      std::size_t o;
      switch (c.below(4)) {
        case 0: o = c.below(u.n); break;
        case 1: o = u.n - 1 - c.below(std::min<std::size_t>(u.n, 3000)); break;
        case 2: o = (std::size_t{1} << c.range(31, 33)) + c.below(40) - 20; break;
        default: o = 0; break;
      }
      return std::min(o, u.n - 1);
    };
    std::size_t oa = place(a), ob = place(b), ra = a.n - oa, rb = b.n - ob;
    bool fill = c.chance(1, 3);
    std::size_t most = fill ? rb : std::min(ra, rb);
    std::size_t len = 1 + c.below(std::min<std::size_t>(most, 3000));
    bool bad = c.chance(1, 4);
    std::size_t rest = fill ? rb : ra;
    bool all = !bad && rest <= 3000 && rest <= most && c.chance(1, 2); // length 0: everything that remains
    if (all) len = rest;
    if (bad) len = rb + (c.chance(1, 2) ? 1 + c.below(3) : (std::size_t{1} << 32) * c.range(1, 3) + c.below(3));
    if (!bad && !fill && a.p + oa < b.p + ob + len && b.p + ob < a.p + oa + len) return; // overlapping
    int val = static_cast<int>(c.below(256));
    unsigned char* dst = reinterpret_cast<unsigned char*>(b.p + ob);
    unsigned char* src = reinterpret_cast<unsigned char*>(a.p + oa);
    std::size_t lo = std::min<std::size_t>(ob, 32), hi = bad ? 0 : std::min<std::size_t>(rb - len, 32), in = bad ? 0 : len;
    std::vector<unsigned char> want(dst - lo, dst + in + hi);
    if (!bad && fill) memset(want.data() + lo, val, len);
    if (!bad && !fill) memcpy(want.data() + lo, src, len);
    bool threw = false;
    c.trace("%s(%p+%zu of %zu, %p+%zu of %zu, %zu)", fill ? "memset" : "copy", (void*)b.p, ob, b.n, (void*)a.p, oa, a.n, all ? 0 : len);
    try {
      if (fill) w.rm.memset(dst, val, all ? 0 : len);
      else w.rm.copy(dst, src, all ? 0 : len);
    } catch (umpire::runtime_error&) {
      threw = true;
    }
    WCHECK(w, G_COPY, threw == bad, "copy-bounds", "%s of %zu bytes into %zu remaining bytes %s", fill ? "memset" : "copy", len, rb,
           threw ? "threw" : "was accepted");
    WCHECK(w, G_COPY, !memcmp(want.data(), dst - lo, want.size()), "copy-content", "%s of %zu bytes to offset %zu left other contents than asked for",
           fill ? "memset" : "copy", len, ob);
    if (!bad) {
      UserAlloc& u = w.live.at(b.p);
      w.fill(u);
    }
    if (s.groups & G_COPY) {
      unsigned sv = w.groups;
      w.groups |= G_CONTENT;
      w.verify_all("after a copy");
      w.groups = sv;
    }
    after("after copy");
  }

  // Very many allocations at once: more than 16 bits can count.
  void crowd(Node& n)
  {
    bool list = false; // its searches are linear
    for (Node* m = &n;; m = &w.node(m->parent)) {
      list = list || m->kind == K_LIST || m->kind == K_SLOT || (is_pool(m->kind) && m->heur != H_DEFAULT);
      if (m->parent < 0) break;
    }
    std::size_t k = list ? c.range(200, 1000) : c.range(500, c.chance(1, 2) ? 5000 : 70000);
    for (Node* m = &n;; m = &w.node(m->parent)) {
      if (m->kind == K_FIXED) k = std::min(k, m->per_pool * 300);
      if (m->kind == K_MIXED) k = std::min<std::size_t>(k, 3000);
      if (m->parent < 0) break;
    }
    std::uint64_t x = c.below(1u << 30) * 2 + 1;
    auto next = [&](std::size_t m) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      return static_cast<std::size_t>((x >> 33) % m);
    };
    std::size_t most = c.chance(1, 2) ? 24 : 200;
    c.trace("up to %zu allocations of up to %zu bytes from %s", k, most, n.name.c_str());
    std::vector<Addr> mine;
    bool refused = false;
    for (std::size_t i = 0; i < k; ++i) {
      std::size_t bytes = n.fixed_req ? n.fixed_req : 1 + next(most);
      if (w.total + bytes > w.max_total) break;
      bool must = w.must_succeed(n, bytes) && !any_fault();
      int slot = n.kind == K_SLOT && !any_fault() ? slot_prediction(n, bytes) : -1;
      if (slot > 0 && (slot == 2 || w.must_succeed_above(n))) must = true;
      World::Result r = w.raw_alloc(n, bytes, nullptr);
      WCHECK(w, G_CAP, !r.ok || slot != 0, "slots", "%s has %zu slots, all are taken, and served %zu bytes", n.name.c_str(), n.slots, bytes);
      if (!r.ok) {
        if (must) w.violated(must_group(n), "refused", "%s refused %zu bytes with %zu allocations live: %s", n.name.c_str(), bytes, n.live.size(), r.what.c_str());
        refused = true;
        break;
      }
      w.book(n, r.p, bytes, "");
      mine.push_back(r.p);
    }
    if (refused) ++w.n_fail;
    if (mine.size() > 65536) c.label("more-than-65536-live");
    c.trace("%zu succeeded", mine.size());
    after("with a crowd of allocations");
    if (s.groups & G_LOOKUP)
      for (std::size_t i = 0; i < 200 && !mine.empty(); ++i) w.check_lookup_around(w.live.at(mine[next(mine.size())]));
    // free most of them, in one of several orders
    unsigned order = static_cast<unsigned>(c.below(3));
    if (order == 1) std::reverse(mine.begin(), mine.end());
    if (order == 2)
      for (std::size_t i = 1; i < mine.size(); ++i) std::swap(mine[i], mine[next(i + 1)]);
    bool large = mine.size() > 5000;
    std::size_t keep = !large && c.chance(1, 3) ? std::min<std::size_t>(mine.size(), c.below(100)) : 0;
    for (std::size_t i = 0; i + keep < mine.size(); ++i) {
      UserAlloc u = w.live.at(mine[i]);
      w.verify(u, "before deallocate");
      w.unbook(u.p);
      try {
        n.al.deallocate((void*)u.p);
      } catch (std::exception& e) {
        w.violated(G_SERVE, "deallocate-throws", "deallocating live %p size %zu of %s threw: %s", (void*)u.p, u.n, n.name.c_str(), e.what());
      }
      if (i % 8192 == 8191) after("among many deallocations");
    }
    c.trace("all but %zu freed", keep);
    after("after many deallocations");
    ++n_crowd;
    if (large) // what follows looks at every block after every step
      for (Node* m = &n; m->parent >= 0; m = &w.node(m->parent)) do_release(*m);
  }

  void op(unsigned o)
  {
    c.step();
    if (w.many && o == O_ALLOC && n_crowd < 1 && c.chance(1, 3)) {
      Node* n = pick_node();
      if (n->tracked && n->kind != K_HOST) return crowd(*n);
    }
    if (w.vast) {
      if (o == O_HUGE) return;
      if (o == O_COPY || o == O_MEMSET) return vast_copy();
    }
    switch (o) {
      case O_ALLOC: case O_NAMED: {
        Node* n = pick_node();
        std::size_t bytes = w.gen_size(*n);
        if (w.total + bytes > w.max_total) return;
        std::string nm = "alloc" + std::to_string(w.serial);
        unsigned burst = n->kind == K_FIXED && c.chance(1, 3) ? static_cast<unsigned>(c.range(2, 40)) : 1;
        for (unsigned i = 0; i < burst; ++i)
          if (!do_alloc(*n, bytes, o == O_NAMED ? &nm : nullptr).ok) break;
        break;
      }
      case O_FREE: {
        if (w.live.empty()) return;
        do_free(w.some_live());
        break;
      }
      case O_ZERO: do_zero(*pick_node()); break;
      case O_FREEZERO:
        if (!w.zero.empty()) do_free(w.some_zero());
        else {
          Node* n = pick_node();
          c.trace("%s.deallocate(nullptr)", n->name.c_str());
          Snap s0 = snap();
          n->al.deallocate(nullptr);
          WCHECK(w, G_ZERO, snap() == s0, "null-dealloc", "deallocating a null pointer changed the allocators' state");
        }
        break;
      case O_RELEASE: do_release(*pick_node()); break;
      case O_COALESCE: do_coalesce(*pick_node()); break;
      case O_REALLOC: do_realloc(); break;
      case O_MOVE: do_move(); break;
      case O_COPY: do_copy(); break;
      case O_MEMSET: do_memset(); break;
      case O_LOOKUP: {
        ++n_lookup;
        if (!w.live.empty() && c.chance(3, 4)) {
          UserAlloc u = w.live.at(w.some_live());
          w.check_lookup_around(u);
          w.check_lookup(u.p + c.below(u.n));
        } else if (!w.zero.empty() && c.chance(1, 2))
          zero_lookup(w.zero.at(w.some_zero()));
        else if (!dead.empty())
          w.check_lookup(dead[c.below(dead.size())]);
        break;
      }
      case O_MISUSE: do_misuse(); break;
      case O_FAULT: do_fault(); break;
      case O_HUGE: do_huge(); break;
      case O_MAKE:
        if (w.nodes.size() < 9) make_one();
        break;
      case O_DRAIN: { // free everything of one allocator, in one of several orders
        Node* n = pick_node();
        unsigned order = static_cast<unsigned>(c.below(3));
        std::vector<Addr> v(n->live.begin(), n->live.end());
        if (order == 1) std::reverse(v.begin(), v.end());
        if (order == 2)
          for (std::size_t i = 1; i < v.size(); i += 2) std::swap(v[i], v[i / 2]);
        std::size_t keep = c.chance(1, 3) ? c.below(v.size() + 1) : 0;
        for (std::size_t i = 0; i + keep < v.size(); ++i) do_free(v[i]);
        break;
      }
    }
  }

  void finish()
  {
    for (auto& m : w.nodes)
      if (m->below) {
        m->below->fail_next = 0;
        m->below->grace = 0;
        m->below->budget = SIZE_MAX;
      }
    w.verify_all("at the end");
    if (s.groups & G_LOOKUP)
      for (auto& u : w.live)
        if (w.node(u.second.node).tracked) w.check_lookup_around(u.second);
    if (s.faults) {
      // faults are gone: every allocator that can serve a request has to
      for (auto& n : w.nodes) {
        std::size_t b = n->fixed_req ? n->fixed_req : 24;
        if (w.must_succeed(*n, b)) do_alloc(*n, b, nullptr);
      }
    }
    std::vector<Addr> v;
    for (auto& u : w.live) v.push_back(u.first);
    if (c.chance(1, 2)) std::reverse(v.begin(), v.end());
    for (Addr p : v) do_free(p);
    v.clear();
    for (auto& u : w.zero) v.push_back(u.first);
    for (Addr p : v) do_free(p);
    for (std::size_t i = w.nodes.size(); i-- > 0;) {
      Node& n = w.node(static_cast<int>(i));
      if (n.kind == K_SPY || n.kind == K_HOST) continue;
      do_release(n);
      // strategies with nothing to release (a MixedPool, slots, ...) keep what they drew from this one
      bool held = false;
      for (int ch : n.children) held = held || !w.node(ch).below->live.empty();
      if (!held) switch (n.kind) {
        case K_QUICK: case K_LIST:
          WCHECK(w, G_PARENT, n.below->live.empty() && n.al.getActualSize() == 0, "not-reclaimed",
                 "%s still holds %zu blocks after everything was freed and released", n.name.c_str(), n.below->live.size());
          break;
        case K_FIXED: case K_LIMIT: case K_TSAFE: case K_ALIGN: case K_NAMED: case K_SHIM:
          WCHECK(w, G_PARENT, n.below->live.empty(), "not-reclaimed", "%s still holds %zu blocks after everything was freed",
                 n.name.c_str(), n.below->live.size());
          break;
        default: break;
      }
      if (n.tracked && n.children.empty() && n.kind != K_MONO)
        WCHECK(w, G_STATS, n.al.getCurrentSize() == 0 && n.al.getAllocationCount() == 0, "not-zero",
               "%s reports %zu bytes in %zu allocations after everything was freed", n.name.c_str(), n.al.getCurrentSize(),
               n.al.getAllocationCount());
    }
    after("at the end");
  }

  // the aligned-allocation adaptor takes powers of two from 16 upwards
  void refused_alignment()
  {
    std::size_t a = c.chance(1, 2) ? c.below(4200) : (std::size_t{1} << c.below(63)) + c.below(3) - 1;
    bool good = a >= 16 && (a & (a - 1)) == 0;
    bool made = true;
    c.trace("make AlignedAllocator with alignment %zu", a);
    try {
      w.rm.makeAllocator<umpire::strategy::AlignedAllocator>(w.fresh("odd"), w.rm.getAllocator("HOST"), a);
    } catch (umpire::runtime_error&) {
      made = false;
    }
    WCHECK(w, G_ALIGN, made == good, "alignment-accepted", "an aligned allocator with alignment %zu was %s", a, made ? "made" : "refused");
  }

  void run()
  {
    try {
      if (s.groups == G_ALIGN && !w.vast && c.chance(1, 8)) refused_alignment();
      topology();
      unsigned tw = 0;
      for (unsigned x : s.w) tw += x;
      unsigned check = 0;
      while (c.more(120, 90)) {
        std::uint64_t x = c.below(tw);
        unsigned o = 0;
        while (x >= s.w[o]) x -= s.w[o++];
        op(o);
        if (++check % 16 == 0) w.verify_all("during the history");
      }
      finish();
    } catch (Abandon&) {
      // another guarantee failed first, and the model no longer describes the allocators
      return;
    }
    bool nt = w.n_alloc >= 3 && w.n_free >= 2;
    if (s.faults) nt = nt && failed_ops > 0;
    if (w.vast) nt = nt && n_vast > 0;
    if (w.many) nt = n_crowd > 0;
    if (s.huge) nt = nt && n_huge > 0;
    if (s.w[O_MISUSE] > 20) nt = nt && n_misuse > 0;
    if (s.w[O_COPY] > 20) nt = nt && n_copy > 1;
    if (s.w[O_REALLOC] > 20) nt = nt && n_realloc > 1;
    if (s.w[O_ZERO] > 20) nt = nt && n_zero > 1;
    if (s.w[O_LOOKUP] > 20) nt = nt && n_lookup > 1;
    if (s.groups == G_HEUR) nt = nt && n_fired > 0;
    if (s.groups & (G_POOL | G_GROW)) nt = nt && w.n_grow > 0;
    if (nt) c.nontrivial();
    if (w.n_coalesce) c.label("coalesced");
    if (w.n_release) c.label("released");
    if (w.n_grow > 3) c.label("grew>3");
  }
};

const std::vector<Kind> ALL = {K_QUICK, K_LIST, K_QUICK, K_LIST, K_FIXED, K_MIXED, K_MONO, K_SLOT, K_LIMIT, K_TSAFE, K_ALIGN, K_NAMED, K_SHIM};
const std::vector<Kind> POOLS = {K_QUICK, K_LIST};
const std::vector<Kind> POOLS_MORE = {K_QUICK, K_LIST, K_QUICK, K_LIST, K_QUICK, K_LIST, K_FIXED, K_MIXED, K_NAMED, K_ALIGN};

//                                 alloc named free zero fz rel coal real move copy mset look mis fault huge make drain
const std::vector<Suite> SUITES = {
    {"place", G_PLACE | G_CONTENT | G_SERVE, ALL, {40, 3, 30, 2, 1, 4, 3, 3, 2, 2, 2, 0, 1, 2, 1, 2, 4}, false, false, true, 5,
     "at least three allocations and two deallocations"},
    {"align", G_ALIGN, {K_FIXED, K_QUICK, K_LIST, K_ALIGN, K_MIXED, K_MONO, K_NAMED, K_LIMIT, K_SLOT, K_QUICK, K_LIST, K_ALIGN},
     {45, 3, 25, 0, 0, 3, 3, 4, 2, 0, 0, 0, 0, 0, 0, 3, 3}, false, false, true, 5, "at least three allocations and two deallocations"},
    {"stats", G_STATS, ALL, {40, 4, 30, 4, 3, 4, 3, 8, 4, 1, 1, 0, 6, 3, 2, 2, 4}, false, false, true, 5,
     "at least three allocations and two deallocations"},
    {"pool", G_POOL, POOLS_MORE, {40, 2, 32, 1, 1, 6, 5, 2, 1, 0, 0, 0, 1, 3, 1, 2, 5}, false, false, false, 4,
     "at least three allocations, two deallocations and one pool growth"},
    {"reclaim", G_PARENT, ALL, {40, 2, 32, 2, 2, 8, 5, 4, 3, 0, 0, 0, 0, 2, 0, 3, 6}, false, false, false, 5,
     "at least three allocations and two deallocations"},
    {"faults", G_FAULT | G_STATS | G_POOL | G_PARENT | G_CONTENT | G_SERVE | G_PLACE | G_LOOKUP, ALL,
     {40, 5, 24, 2, 1, 3, 3, 6, 4, 0, 0, 3, 0, 22, 3, 5, 4}, true, false, true, 4,
     "an operation was refused, with at least three allocations and two deallocations around it"},
    {"huge", G_HUGE, {K_QUICK, K_LIST, K_MIXED, K_MONO, K_SLOT, K_LIMIT, K_TSAFE, K_ALIGN, K_NAMED, K_SHIM},
     {25, 2, 12, 1, 1, 1, 1, 2, 1, 0, 0, 0, 0, 0, 30, 2, 1}, false, true, true, 4,
     "a request that cannot be served, between at least three allocations and two deallocations"},
    {"limit", G_LIMIT, {K_LIMIT, K_LIMIT, K_LIMIT, K_QUICK, K_LIST, K_FIXED, K_NAMED, K_ALIGN},
     {45, 3, 26, 1, 1, 3, 2, 4, 3, 0, 0, 0, 0, 12, 4, 3, 4}, false, false, false, 4,
     "at least three allocations and two deallocations"},
    {"capacity", G_CAP | G_PLACE, {K_FIXED, K_MONO, K_SLOT, K_MIXED, K_FIXED, K_MONO, K_SLOT},
     {55, 2, 26, 1, 1, 4, 0, 2, 2, 0, 0, 0, 0, 0, 3, 3, 4}, false, false, false, 4,
     "at least three allocations and two deallocations"},
    {"lookup", G_LOOKUP, ALL, {30, 6, 20, 4, 2, 2, 2, 4, 4, 0, 0, 40, 2, 2, 1, 2, 3}, false, false, true, 5,
     "at least two ownership probes between three allocations and two deallocations"},
    {"misuse", G_MISUSE, ALL, {30, 4, 20, 3, 2, 2, 2, 2, 2, 0, 0, 0, 40, 0, 0, 2, 2}, false, false, true, 5,
     "at least one misuse between three allocations and two deallocations"},
    {"zero", G_ZERO, ALL, {25, 2, 16, 40, 25, 2, 2, 6, 4, 0, 0, 0, 3, 0, 0, 2, 2}, false, false, true, 4,
     "at least two zero-byte allocations between three allocations and two deallocations"},
    {"copy", G_COPY, {K_QUICK, K_LIST, K_FIXED, K_MIXED, K_MONO, K_SLOT, K_LIMIT, K_TSAFE, K_ALIGN, K_NAMED, K_SHIM},
     {30, 1, 12, 1, 1, 1, 1, 2, 2, 30, 25, 0, 0, 0, 0, 1, 1}, false, false, true, 4,
     "at least two copies or fills between three allocations and two deallocations"},
    {"realloc", G_REALLOC, ALL, {30, 2, 14, 5, 2, 2, 2, 40, 18, 1, 1, 0, 1, 3, 4, 1, 1}, false, false, true, 4,
     "at least two reallocations or moves between three allocations and two deallocations"},
    {"coalesce", G_HEUR, POOLS, {40, 1, 36, 1, 1, 4, 8, 0, 0, 0, 0, 0, 0, 0, 0, 1, 6}, false, false, false, 2,
     "blocks were exchanged by coalescing, with at least three allocations and two deallocations"},
    {"growth", G_GROW, POOLS, {45, 1, 36, 0, 0, 4, 3, 2, 0, 0, 0, 0, 0, 0, 0, 1, 5}, false, false, false, 3,
     "at least three allocations, two deallocations and one pool growth"},
};

} // namespace

// C07: pools made with sizes, counts, multipliers and alignments whose products or sums do not fit
std::size_t big(Ctx& c)
{
  switch (c.weighted({3, 3, 2, 2})) {
    case 0: return c.size(2000);
    case 1: return (std::size_t{1} << c.range(0, 63)) + c.below(3) - 1;
    case 2: return ~std::size_t{0} / (1 + c.below(100)) + c.below(5);
    default: return (std::size_t{1} << c.range(20, 63)) * (1 + c.below(5));
  }
}

void big_params(Ctx& c)
{
  namespace st = umpire::strategy;
  auto& rm = umpire::ResourceManager::getInstance();
  static unsigned serial = 0;
  std::string u = std::to_string(serial++), nm = "big" + u;
  Allocator leaf = rm.makeAllocator<world::Spy>("bleaf" + u, (int)(c.below(2) * 8));
  auto* spy = dynamic_cast<world::Spy*>(leaf.getAllocationStrategy());
  const std::size_t room = std::size_t{1} << 28; // the most the leaf gives
  Allocator a;
  std::size_t fixed = 0, p1 = big(c), p2 = big(c);
  bool must = false; // must be refused
  unsigned k = (unsigned)c.below(7);
  static const char* names[] = {"FixedPool", "MixedPool", "QuickPool", "DynamicPoolList", "Monotonic", "AlignedAllocator", "SizeLimiter"};
  c.trace("%s with %zu, %zu", names[k], p1, p2);
  auto before = rm.getAllocatorNames().size();
  try {
    switch (k) {
      case 0:
        if (!p1) p1 = 1;
        if (!p2) p2 = 1;
        if (p2 > (std::size_t{1} << 20) && p1 <= 64) p1 += (std::size_t{1} << 28); // its bookkeeping is one bit per object
        fixed = p1;
        must = (unsigned __int128)p1 * p2 > room;
        a = rm.makeAllocator<st::FixedPool>(nm, leaf, p1, p2);
        break;
      case 1: {
        std::size_t mult = p1;
        a = rm.makeAllocator<st::MixedPool>(nm, leaf, c.size(4096), c.size(100000) + (c.chance(1, 3) ? p2 : 0), c.size(10000), mult, c.size(2000), c.size(2000), 16);
        break;
      }
      case 2: a = rm.makeAllocator<st::QuickPool>(nm, leaf, p1, p2, std::size_t{1} << c.range(3, c.chance(1, 3) ? 63 : 10)); break;
      case 3: a = rm.makeAllocator<st::DynamicPoolList>(nm, leaf, p1, p2, std::size_t{1} << c.range(3, c.chance(1, 3) ? 63 : 10)); break;
      case 4: must = p1 > room; a = rm.makeAllocator<st::MonotonicAllocationStrategy>(nm, leaf, p1 ? p1 : 1); break;
      case 5: a = rm.makeAllocator<st::AlignedAllocator>(nm, leaf, std::size_t{1} << c.range(4, 63)); break;
      default: a = rm.makeAllocator<st::SizeLimiter>(nm, leaf, p1); break;
    }
  } catch (std::exception& e) {
    c.label("refused");
    c.nontrivial();
    PCHECK(c, k == 0 || k == 4 || k == 1, "params-refused", "%s could not be made: %s", names[k], e.what());
    PCHECK(c, !rm.isAllocator(nm) && rm.getAllocatorNames().size() == before, "params-residue", "the refused %s is registered", names[k]);
    PCHECK(c, spy->live.empty(), "params-residue", "the refused %s keeps memory", names[k]);
    return;
  }
  PCHECK(c, !must, "params-wrapped", "%s with %zu and %zu was made over %zu bytes", names[k], p1, p2, room);
  c.label(names[k]);
  std::vector<std::pair<char*, std::size_t>> mine;
  while (c.more(12, 20)) {
    c.step();
    std::size_t n = fixed ? fixed : c.chance(1, 3) ? big(c) : c.size(3000);
    if (!n) n = 1;
    char* p;
    try {
      p = static_cast<char*>(a.allocate(n));
    } catch (std::exception&) {
      c.trace("%zu refused", n);
      c.label("request-refused");
      c.nontrivial();
      continue;
    }
    c.trace("%zu allocated", n);
    PCHECK(c, n <= room, "wrapped", "%s served %zu bytes from a memory of %zu", names[k], n, room);
    bool in = false;
    for (auto& b : spy->live) in = in || ((char*)b.first <= p && n <= b.second.size && p + n <= (char*)b.first + b.second.size);
    PCHECK(c, in, "outside", "%s returned %zu bytes that are not inside a block of its parent", names[k], n);
    for (auto& m : mine) PCHECK(c, m.first + m.second <= p || p + n <= m.first, "overlap", "%s returned overlapping allocations of %zu and %zu bytes", names[k], n, m.second);
    p[0] = p[n - 1] = 1;
    mine.push_back({p, n});
  }
  for (auto& m : mine) a.deallocate(m.first);
}

// --- lengths of megabytes, compared byte by byte, and of more than 32 bits ------------------------------------
void put_words(char* p, std::size_t n, std::uint64_t seed)
{
  for (std::size_t i = 0; i < n; i += 8) {
    std::uint64_t v = (seed + i) * 0x9e3779b97f4a7c15ull;
    memcpy(p + i, &v, std::min<std::size_t>(8, n - i));
  }
}
// first byte in [from, to) that is not what put_words left there
std::size_t differs(const char* p, std::size_t from, std::size_t to, std::size_t shift, std::uint64_t seed)
{
  for (std::size_t i = from; i < to; ++i) {
    std::size_t j = i + shift;
    std::uint64_t v = (seed + j / 8 * 8) * 0x9e3779b97f4a7c15ull;
    if (p[i] != (char)(v >> (8 * (j % 8)))) return i;
  }
  return to;
}

Allocator some_allocator(Ctx& c, const std::string& nm)
{
  namespace st = umpire::strategy;
  auto& rm = umpire::ResourceManager::getInstance();
  Allocator host = rm.getAllocator("HOST");
  switch (c.below(7)) {
    case 0: return rm.makeAllocator<st::QuickPool>(nm, host, c.size(1 << 22), c.size(1 << 20));
    case 1: return rm.makeAllocator<st::DynamicPoolList>(nm, host, c.size(1 << 22), c.size(1 << 20));
    case 2: return rm.makeAllocator<st::NamedAllocationStrategy>(nm, host);
    case 3: return rm.makeAllocator<st::ThreadSafeAllocator>(nm, host);
    case 4: return rm.makeAllocator<st::AlignedAllocator>(nm, host, 64);
    case 5: return rm.makeAllocator<st::MixedPool>(nm, host);
    default: return host;
  }
}

std::size_t megabytes(Ctx& c)
{
  switch (c.below(3)) {
    case 0: return (std::size_t{1} << c.range(17, 23)) + c.below(5) - 2;
    case 1: return c.range(1u << 16, 1u << 20);
    default: return c.range(1u << 20, 9u << 20);
  }
}

void long_copy(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  Allocator x = some_allocator(c, "lx"), y = some_allocator(c, "ly");
  std::size_t na = megabytes(c), nb = megabytes(c);
  char *a = static_cast<char*>(x.allocate(na)), *b = static_cast<char*>(y.allocate(nb));
  put_words(a, na, 11);
  while (c.more(4)) {
    c.step();
    put_words(b, nb, 77);
    bool fill = c.chance(1, 3);
    std::size_t oa = c.chance(1, 2) ? 0 : c.below(na), ob = c.chance(1, 2) ? 0 : c.below(nb);
    std::size_t most = fill ? nb - ob : std::min(na - oa, nb - ob);
    std::size_t len = c.chance(1, 2) ? most - c.below(std::min<std::size_t>(most, 20)) : 1 + c.below(most);
    c.trace("%s %zu bytes to %zu of %zu", fill ? "memset" : "copy", len, ob, nb);
    if (fill) rm.memset(b + ob, 0x5c, len);
    else rm.copy(b + ob, a + oa, len);
    std::size_t d = differs(b, 0, ob, 0, 77);
    PCHECK(c, d == ob, "copy-outside", "%zu bytes went to offset %zu, but byte %zu changed", len, ob, d);
    d = differs(b, ob + len, nb, 0, 77);
    PCHECK(c, d == nb, "copy-outside", "%zu bytes went to offset %zu, but byte %zu changed", len, ob, d);
    if (fill) {
      for (d = ob; d < ob + len && b[d] == 0x5c;) ++d;
    } else
      d = oa >= ob ? differs(b, ob, ob + len, oa - ob, 11) : 0;
    if (!fill && oa < ob) d = memcmp(b + ob, a + oa, len) ? ob : ob + len;
    PCHECK(c, d == ob + len, "copy-content", "%s of %zu bytes to offset %zu: byte %zu is not what it should be", fill ? "memset" : "copy", len, ob, d);
    d = differs(a, 0, na, 0, 11);
    PCHECK(c, d == na, "copy-source", "byte %zu of the source changed", d);
    c.nontrivial();
  }
  rm.deallocate(a);
  rm.deallocate(b);
}

// a region of which all but the last megabyte is one small piece of memory seen again and again
char* tiled(std::size_t n)
{
  const std::size_t piece = 64u << 20, tail = 1u << 20;
  char* p = static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (p == MAP_FAILED) return nullptr;
  int fd = memfd_create("tile", 0);
  bool ok = fd >= 0 && ftruncate(fd, piece) == 0;
  for (std::size_t at = 0; ok && at + piece + tail <= n; at += piece)
    ok = mmap(p + at, piece, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
  if (fd >= 0) close(fd);
  if (!ok) {
    munmap(p, n);
    return nullptr;
  }
  return p;
}

void giant_copy(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  auto* host = rm.getAllocator("HOST").getAllocationStrategy();
  std::size_t n = (std::size_t{1} << 32) + (2u << 20) + c.below(4096), len = n - 1 - c.below(500);
  char *a = tiled(n), *b = tiled(n);
  if (a && b) {
    rm.registerAllocation(a, {a, n, host});
    rm.registerAllocation(b, {b, n, host});
    const std::size_t t = 1u << 16; // what is looked at
    put_words(a + n - t, t, 11);
    put_words(b + n - t, t, 77);
    bool fill = c.chance(1, 2);
    c.trace("%s %zu bytes", fill ? "memset" : "copy", len);
    if (fill) rm.memset(b, 0x5c, len);
    else rm.copy(b, a, len);
    std::size_t in = t - (n - len), d = 0;
    if (fill)
      while (d < in && b[n - t + d] == 0x5c) ++d;
    else
      d = differs(b + n - t, 0, in, 0, 11);
    PCHECK(c, d == in, "copy-content", "%s of %zu bytes: byte %zu is not what it should be", fill ? "memset" : "copy", len, n - t + d);
    d = differs(b + n - t, in, t, 0, 77);
    PCHECK(c, d == t, "copy-outside", "%s of %zu bytes changed byte %zu", fill ? "memset" : "copy", len, n - t + d);
    rm.deregisterAllocation(a);
    rm.deregisterAllocation(b);
    c.nontrivial();
  }
  if (a) munmap(a, n);
  if (b) munmap(b, n);
}

void long_realloc(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  std::vector<Allocator> al;
  for (int i = 0; i < 3; ++i) al.push_back(some_allocator(c, "l" + std::to_string(i)));
  std::size_t n = megabytes(c), at = c.below(3);
  char* p = static_cast<char*>(al[at].allocate(n));
  std::uint64_t seed = 5;
  put_words(p, n, seed);
  while (c.more(5)) {
    c.step();
    std::size_t keep = n;
    if (c.chance(1, 3)) {
      std::size_t to = c.below(3);
      c.trace("move %zu bytes from %s to %s", n, al[at].getName().c_str(), al[to].getName().c_str());
      p = static_cast<char*>(rm.move(p, al[to]));
      at = to;
    } else {
      std::size_t m = megabytes(c);
      c.trace("reallocate %zu bytes of %s to %zu", n, al[at].getName().c_str(), m);
      p = static_cast<char*>(c.chance(1, 2) ? rm.reallocate(p, m) : rm.reallocate(p, m, al[at]));
      keep = std::min(n, m);
      n = m;
    }
    PCHECK(c, rm.getSize(p) == n && rm.getAllocator(static_cast<void*>(p)).getAllocationStrategy() == al[at].getAllocationStrategy(), "realloc-record",
           "the record says %zu bytes of %s", rm.getSize(p), rm.getAllocator(static_cast<void*>(p)).getName().c_str());
    std::size_t d = differs(p, 0, keep, 0, seed);
    PCHECK(c, d == keep, "realloc-content", "byte %zu of the %zu that had to be kept is lost", d, keep);
    put_words(p, n, ++seed);
    c.nontrivial();
  }
  rm.deallocate(p);
}

// hundreds of blocks, and a heuristic that waits for hundreds to be free
unsigned many_serial = 0;
template <typename Pool>
void many_blocks_of(Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  unsigned& serial = many_serial;
  std::string u = std::to_string(serial++);
  Allocator leaf = rm.makeAllocator<world::Spy>("mleaf" + u, 0);
  auto* spy = dynamic_cast<world::Spy*>(leaf.getAllocationStrategy());
  std::size_t want = c.range(2, 700), k = want + c.range(1, 300);
  bool hwm = c.chance(1, 2);
  Allocator a = rm.makeAllocator<Pool>("mpool" + u, leaf, std::size_t{256}, std::size_t{256}, std::size_t{16},
                                       hwm ? Pool::blocks_releasable_hwm(want) : Pool::blocks_releasable(want));
  c.trace("%zu blocks, coalesce at %zu free ones (%s)", k, want, hwm ? "highwatermark" : "actual size");
  std::vector<void*> v;
  for (std::size_t i = 0; i < k; ++i) v.push_back(a.allocate(256));
  PCHECK(c, spy->live.size() == k, "blocks", "%zu allocations of a block each took %zu blocks", k, spy->live.size());
  pbt::Rng r(c.below(1u << 30));
  for (std::size_t i = 1; i < k; ++i) std::swap(v[i], v[r.below(i + 1)]);
  for (std::size_t i = 1; i <= k; ++i) {
    std::size_t calls = spy->calls_dealloc;
    a.deallocate(v[i - 1]);
    if (i < want)
      PCHECK(c, spy->calls_dealloc == calls, "coalesced-early", "%zu of %zu blocks are free and the pool coalesced; it was to wait for %zu", i, k, want);
    else {
      PCHECK(c, spy->calls_dealloc == calls + want, "not-coalesced", "%zu of %zu blocks are free, and the pool gave %zu back when it had to coalesce", i, k,
             spy->calls_dealloc - calls);
      break;
    }
  }
  for (std::size_t i = want; i < k; ++i) a.deallocate(v[i]);
  a.release();
  PCHECK(c, spy->live.empty() && spy->error.empty(), "not-returned", "%zu blocks were not returned %s", spy->live.size(), spy->error.c_str());
  c.nontrivial();
}
void many_blocks(Ctx& c)
{
  if (c.chance(1, 2)) many_blocks_of<umpire::strategy::QuickPool>(c);
  else many_blocks_of<umpire::strategy::DynamicPoolList>(c);
}

int main(int argc, char** argv)
{
  std::string want = pbt::arg(argc, argv, "--suite", "place");
  for (auto& s : SUITES)
    if (want == s.name) {
      const Suite* sp = &s;
      std::vector<pbt::Stream> st = {{s.name, 1, 1, [sp](Ctx& c) { Game g(c, *sp); g.run(); }, s.rule}};
      pbt::Settings set;
      if (want != "huge") {
        st[0].weight = 54;
        st.push_back({"vast", 5, 1, [sp](Ctx& c) { Game g(c, *sp); g.w.vast = true; g.w.max_total = std::size_t{1} << 42; g.run(); },
                      "the same with allocations of a gigabyte and more"});
      }
      if (s.groups & (G_PLACE | G_STATS | G_POOL | G_PARENT | G_LOOKUP | G_CAP) && !s.faults)
        st.push_back({"crowd", 1, 1, [sp](Ctx& c) { Game g(c, *sp); g.w.many = true; g.run(); }, "the same with thousands of allocations at once"});
      if (want == "copy") {
        st.push_back({"long", 2, 1, long_copy, "every case: megabytes are copied or filled"});
        st.push_back({"giant", 1, 1, [](Ctx& c) { if (c.chance(1, 6)) giant_copy(c); else long_copy(c); }, "as long, or more than 32 bits can count"});
      }
      if (want == "realloc") st.push_back({"long", 3, 1, long_realloc, "every case: megabytes are reallocated or moved"});
      if (want == "coalesce") st.push_back({"blocks", 1, 4, many_blocks, "every case: hundreds of blocks"});
      if (want == "huge") {
        st[0].weight = 3;
        st.push_back({"parameters", 1, 4, big_params, "a pool or a request was refused"});
      }
      return pbt::run_main(argc, argv, st, set);
    }
  fprintf(stderr, "no suite %s\n", want.c_str());
  return 3;
}
