S = "src/umpire/strategy/"
RM = "src/umpire/ResourceManager.cpp"
START = r'''
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
'''
BUGS = [
 dict(id="slot-wrap", property="C07",
  needs="a slot pool with a free slot of n bytes and a request of 2^64 - n bytes",
  breaks="a request that cannot be served is given the small free slot",
  edits=[(S + "SlotPool.cpp", "  int64_t int_bytes = static_cast<int64_t>(bytes);", "  int64_t int_bytes = std::abs(static_cast<int64_t>(bytes));")],
  demo=START + r'''
  auto pool = rm.makeAllocator<umpire::strategy::SlotPool>("p", rm.getAllocator("HOST"), 4);
  void* a = pool.allocate(64);
  pool.deallocate(a);
  bool threw = false;
  try { pool.allocate(~std::size_t{0} - 63); } catch (umpire::runtime_error&) { threw = true; }
  CHECK(threw);
  CHECK(pool.getAllocationCount() == 0);
  return 0;
}
'''),
 dict(id="limiter-clamp", property="C08",
  needs="freeing an allocation that is larger than everything else that is live through the limiter",
  breaks="only part of the freed bytes is given back to the limit, so later requests that fit are refused",
  edits=[(S + "SizeLimiter.cpp", "  m_total_size -= size;\n", "  m_total_size -= (size > getCurrentSize()) ? getCurrentSize() : size; // stay in step with what is live\n")],
  demo=START + r'''
  auto lim = rm.makeAllocator<umpire::strategy::SizeLimiter>("l", rm.getAllocator("HOST"), 1000);
  void* a = lim.allocate(100);
  void* b = lim.allocate(800);
  lim.deallocate(b);
  bool threw = false;
  try { b = lim.allocate(900); } catch (umpire::runtime_error&) { threw = true; }
  CHECK(!threw);
  lim.deallocate(a);
  lim.deallocate(b);
  return 0;
}
'''),
 dict(id="zero-last-block", property="C12",
  needs="more zero-byte allocations at once than one block of the internal pool holds, freed afterwards",
  breaks="zero-byte allocations of the earlier blocks are not recognised and are given to the allocator's own deallocate",
  edits=[(S + "FixedPool.cpp", "bool FixedPool::pointerIsFromPool(void* ptr) const noexcept\n{\n  for (auto& p : m_pool) {\n",
          "bool FixedPool::pointerIsFromPool(void* ptr) const noexcept\n{\n  if (!m_pool.empty()) {\n    auto& p = m_pool.back();\n")],
  demo=START + r'''
  auto host = rm.getAllocator("HOST"); // it gives what it takes for its own to free()
  std::vector<void*> v;
  for (int i = 0; i < 9000; ++i) v.push_back(host.allocate(0));
  for (auto p : v) host.deallocate(p);
  CHECK(host.getAllocationCount() == 0);
  return 0;
}
'''),
 dict(id="typed-same-kind", property="C27",
  needs="two pools of the same kind over one parent, and a container moved or swapped between typed allocators of the two",
  breaks="typed allocators of different pools compare equal, so a container takes over memory it cannot free",
  edits=[("src/umpire/TypedAllocator.inl", "  return lhs.m_allocator.getId() == rhs.m_allocator.getId();",
          "  return lhs.m_allocator.getId() == rhs.m_allocator.getId() ||\n         (lhs.m_allocator.getParent() == rhs.m_allocator.getParent() && lhs.m_allocator.getParent() != nullptr &&\n          lhs.m_allocator.getStrategyName() == rhs.m_allocator.getStrategyName());")],
  demo='#include "umpire/TypedAllocator.hpp"\n' + START + r'''
  auto host = rm.getAllocator("HOST");
  auto p = rm.makeAllocator<umpire::strategy::QuickPool>("p", host, 1024, 1024);
  auto q = rm.makeAllocator<umpire::strategy::QuickPool>("q", host, 1024, 1024);
  umpire::TypedAllocator<int> a{p}, b{q}, c{host};
  CHECK(a != b);
  CHECK(a == a && b == b && a != c && c == c);
  return 0;
}
'''),
 dict(id="prefetch-whole", property="C31",
  needs="a prefetch of a pointer into the middle of an allocation",
  breaks="the prefetch reaches past the end of the allocation by the offset",
  edits=[(RM, "  std::size_t size = alloc_record->size - offset;\n\n  auto op = op_registry.find(\"PREFETCH\", alloc_record->strategy, alloc_record->strategy);\n",
          "  std::size_t size = (offset < 0) ? 0 : alloc_record->size;\n\n  auto op = op_registry.find(\"PREFETCH\", alloc_record->strategy, alloc_record->strategy);\n")],
  demo=r'''
#include "umpire/op/MemoryOperation.hpp"
#include "umpire/op/MemoryOperationRegistry.hpp"
#include "umpire/resource/HostResourceFactory.hpp"
#include "umpire/resource/MemoryResourceRegistry.hpp"
static std::size_t seen;
static void* seen_ptr;
struct Op : umpire::op::MemoryOperation {
  camp::resources::EventProxy<camp::resources::Resource> apply_async(void* p, umpire::util::AllocationRecord*, int, std::size_t n, camp::resources::Resource& r) override
  { seen = n; seen_ptr = p; return camp::resources::EventProxy<camp::resources::Resource>{r}; }
};
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  umpire::op::MemoryOperationRegistry::getInstance().registerOperation("PREFETCH", std::make_pair(umpire::Platform::host, umpire::Platform::host), std::make_shared<Op>());
  umpire::MemoryResourceTraits t = umpire::resource::MemoryResourceRegistry::getInstance().getDefaultTraitsForResource("HOST");
  t.resource = umpire::MemoryResourceTraits::resource_type::um;
  auto um = rm.makeResource("HOST", t);
  camp::resources::Resource ctx{camp::resources::Host{}};
  char* a = static_cast<char*>(um.allocate(100));
  rm.prefetch(a, 0, ctx);
  CHECK(seen == 100 && seen_ptr == a);
  rm.prefetch(a + 40, 0, ctx);
  CHECK(seen == 60 && seen_ptr == a + 40);
  um.deallocate(a);
  return 0;
}
'''),
 dict(id="traits-two-levels", property="C32",
  needs="a slot pool at least two strategies above its memory resource",
  breaks="the traits reported for such a slot pool are empty defaults instead of those of its memory resource",
  edits=[(S + "SlotPool.cpp", "  return m_allocator->getTraits();", "  return m_allocator->getParent() ? MemoryResourceTraits{} : m_allocator->getTraits();")],
  demo=START + r'''
  auto host = rm.getAllocator("HOST");
  auto s1 = rm.makeAllocator<umpire::strategy::SlotPool>("s1", host, 4);
  CHECK(s1.getAllocationStrategy()->getTraits().resource == host.getAllocationStrategy()->getTraits().resource);
  auto q = rm.makeAllocator<umpire::strategy::QuickPool>("q", host, 1024, 1024);
  auto s2 = rm.makeAllocator<umpire::strategy::SlotPool>("s2", q, 4);
  CHECK(s2.getAllocationStrategy()->getTraits().resource == host.getAllocationStrategy()->getTraits().resource);
  CHECK(s2.getAllocationStrategy()->getTraits().kind == host.getAllocationStrategy()->getTraits().kind);
  return 0;
}
'''),

 dict(id="log-size-32", property="C20",
  needs="a logged allocation of 4 GiB or more",
  breaks="the size in the log is the size modulo 4 GiB",
  edits=[("src/umpire/event/json_file_store.cpp", '  fprintf(m_fstream,\n          R"({"category":"operation","name":"allocate")"\n          R"(,"numeric_args":{"size":%zu})"',
          '  fprintf(m_fstream,\n          R"({"category":"operation","name":"allocate")"\n          R"(,"numeric_args":{"size":%u})"'),
         ("src/umpire/event/json_file_store.cpp", "          e.size, e.ref, e.ptr,\n", "          static_cast<unsigned>(e.size), e.ref, e.ptr,\n")],
  demo="#include <unistd.h>\n#include \"umpire/event/event.hpp\"\n#include \"umpire/event/json_file_store.hpp\"\n" + r"""
int main() {
  std::size_t sizes[] = {1, 4096, 4294967295u, 4294967296u, 5368709123u};
  {
    umpire::event::json_file_store out{"demo.log", false};
    for (auto n : sizes) {
      umpire::event::allocate a;
      a.size = n; a.ptr = &a; a.ref = &a;
      out.insert(a);
    }
    fflush(nullptr);
  }
  umpire::event::json_file_store in{"demo.log", true};
  auto events = in.get_events();
  CHECK(events.size() == 5);
  for (int i = 0; i < 5; ++i) CHECK(events[i].numeric_args["size"] == sizes[i]);
  return 0;
}
"""),
]
