S = "src/umpire/strategy/"
RM = "src/umpire/ResourceManager.cpp"
START = r'''
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
'''
NUMA = r'''
#include <map>
#include <numa.h>
#include <numaif.h>
#include "umpire/strategy/NumaPolicy.hpp"
// A machine with four nodes; all pages start on node 0
static std::map<std::uintptr_t, int> g_page;
static unsigned long g_nodes[1] = {0xf};
static struct bitmask g_all = {4, g_nodes};
extern "C" {
struct bitmask* numa_all_nodes_ptr = &g_all;
int numa_available(void) { return 0; }
int numa_max_node(void) { return 3; }
int numa_preferred(void) { return 0; }
struct bitmask* numa_bitmask_alloc(unsigned int n) { auto* b = (struct bitmask*)malloc(sizeof(struct bitmask)); b->size = n; b->maskp = (unsigned long*)calloc(2, sizeof(long)); return b; }
void numa_bitmask_free(struct bitmask* b) { free(b->maskp); free(b); }
struct bitmask* numa_bitmask_clearall(struct bitmask* b) { b->maskp[0] = 0; return b; }
struct bitmask* numa_bitmask_setbit(struct bitmask* b, unsigned int n) { b->maskp[0] |= 1UL << n; return b; }
int numa_bitmask_isbitset(const struct bitmask* b, unsigned int n) { return b->maskp[0] >> n & 1; }
unsigned int numa_bitmask_weight(const struct bitmask* b) { return __builtin_popcountl(b->maskp[0]); }
int numa_node_to_cpus(int, struct bitmask* b) { b->maskp[0] = 1; return 0; }
struct bitmask* numa_allocate_cpumask(void) { return numa_bitmask_alloc(64); }
struct bitmask* numa_get_mems_allowed(void) { auto* b = numa_bitmask_alloc(4); b->maskp[0] = 0xf; return b; }
long mbind(void* p, unsigned long n, int, const unsigned long* m, unsigned long, unsigned) {
  for (std::uintptr_t a = (std::uintptr_t)p & ~4095ul; a < (std::uintptr_t)p + n; a += 4096) g_page[a] = __builtin_ctzl(*m);
  return 0;
}
long get_mempolicy(int* mode, unsigned long*, unsigned long, void* p, unsigned) { *mode = g_page[(std::uintptr_t)p & ~4095ul]; return 0; }
}
static int node(void* p) { return g_page[(std::uintptr_t)p & ~4095ul]; }
'''
TRACE = 'export DEMO_OPTIONS="UMPIRE_ENABLE_BACKTRACE|UMPIRE_ENABLE_BACKTRACE_SYMBOLS" DEMO_LINK=-rdynamic UMPIRE_BACKTRACE=On'
BUGS = [
 dict(id="numa-move-pages", property="C33",
  needs="a move to a NUMA policy of an allocation that is larger than a page and not a multiple of the page size",
  breaks="the last page of the allocation stays on its old node",
  sh='export DEMO_OPTIONS=UMPIRE_ENABLE_NUMA DEMO_LEAVE_OUT="sqlite|"',
  edits=[("src/umpire/op/NumaMoveOperation.cpp", "  numa::move_to_node(*dst_ptr, length, numa_allocator->getNode());",
          "  const std::size_t page_size = get_page_size();\n  const std::size_t pages = length / page_size;\n  numa::move_to_node(*dst_ptr, pages > 0 ? pages * page_size : length, numa_allocator->getNode());")],
  demo=NUMA + START + r'''
  auto host = rm.getAllocator("HOST");
  auto n2 = rm.makeAllocator<umpire::strategy::NumaPolicy>("n2", host, 2);
  for (std::size_t size : {100, 4096, 5000, 8192, 12289}) {
    char* p = (char*)host.allocate(size);
    CHECK(rm.move(p, n2) == p);
    for (std::size_t i = 0; i < size; ++i) CHECK(node(p + i) == 2);
    host.deallocate(p);
  }
  return 0;
}
'''),
 dict(id="numa-node-capacity", property="C33",
  needs="a machine whose node asked for is the last one",
  breaks="the mask of nodes is one bit too short, so that the memory is left where it was",
  sh='export DEMO_OPTIONS=UMPIRE_ENABLE_NUMA DEMO_LEAVE_OUT="sqlite|"',
  edits=[("src/umpire/util/numa.cpp", "numa_bitmask_alloc(numa_max_node() + 1)", "numa_bitmask_alloc(numa_max_node() > 0 ? numa_max_node() : 1)")],
  demo=NUMA.replace("b->maskp[0] |= 1UL << n; return b; }", "if (n < b->size) b->maskp[0] |= 1UL << n; return b; }")
           .replace("{\n  for (std::uintptr_t a = ", "{\n  if (!*m) return 0;\n  for (std::uintptr_t a = ") + START + r'''
  auto host = rm.getAllocator("HOST");
  for (int k = 0; k < 4; ++k) {
    auto n = rm.makeAllocator<umpire::strategy::NumaPolicy>("n" + std::to_string(k), host, k);
    char* p = (char*)n.allocate(10000);
    for (std::size_t i = 0; i < 10000; ++i) CHECK(node(p + i) == k);
    n.deallocate(p);
  }
  return 0;
}
'''),
 dict(id="trace-first-record", property="C34",
  needs="two records at one address, and the records of an allocator printed",
  breaks="the record is printed with the backtrace of another allocation at the same address",
  sh=TRACE,
  edits=[("src/umpire/util/AllocationMap.cpp", "print(iter->allocation_backtrace)", "print(p.second->begin()->allocation_backtrace)")],
  demo=r'''
extern "C" __attribute__((noinline)) void first_place(void* p, umpire::strategy::AllocationStrategy* s) { umpire::register_external_allocation(p, umpire::util::AllocationRecord(p, 8, s, "one")); asm volatile("" ::: "memory"); }
extern "C" __attribute__((noinline)) void second_place(void* p, umpire::strategy::AllocationStrategy* s) { umpire::register_external_allocation(p, umpire::util::AllocationRecord(p, 8, s, "two")); asm volatile("" ::: "memory"); }
''' + START.replace("int main", "#include <sstream>\nint main") + r'''
  static char mem[64];
  auto a = rm.makeAllocator<umpire::strategy::NamedAllocationStrategy>("a", rm.getAllocator("HOST"));
  first_place(mem, a.getAllocationStrategy());
  second_place(mem, a.getAllocationStrategy());
  std::ostringstream os;
  umpire::print_allocator_records(a, os);
  CHECK(os.str().find("first_place") != std::string::npos);
  CHECK(os.str().find("second_place") != std::string::npos);
  return 0;
}
'''),
 dict(id="trace-shared-frames", property="C34",
  needs="two threads that make allocations, or run into errors, at the same time",
  breaks="the frames are collected in one buffer for all threads, so an allocation gets frames of another thread's call",
  sh=TRACE,
  edits=[("src/umpire/util/backtrace.inl", "  void* callstack[128];\n", "  static void* callstack[128]; // keep the stack of the caller small\n")],
  demo=r'''
#include <atomic>
std::atomic<int> bad{0};
template <int N> __attribute__((noinline)) void place(Allocator& a, int depth) {
  if (depth) { place<N>(a, depth - 1); asm volatile("" ::: "memory"); return; }
  char other[16];
  std::snprintf(other, sizeof other, "place<%d>", 3 - N);
  std::vector<void*> v;
  for (int i = 0; i < 20000; ++i) v.push_back(a.allocate(16));
  for (int i = 0; i < 20000; ++i) {
    if (i % 200 == 0 && umpire::get_backtrace(v[i]).find(other) != std::string::npos) bad++;
    a.deallocate(v[i]);
  }
  asm volatile("" ::: "memory");
}
''' + START + r'''
  auto safe = rm.makeAllocator<umpire::strategy::ThreadSafeAllocator>("s", rm.getAllocator("HOST"));
  Allocator a = rm.makeAllocator<umpire::strategy::QuickPool>("a", safe), b = rm.makeAllocator<umpire::strategy::QuickPool>("b", safe);
  std::thread t([&] { place<1>(a, 40); }), u([&] { place<2>(b, 40); });
  t.join();
  u.join();
  CHECK(bad == 0);
  return 0;
}
'''),
 dict(id="sqlite-by-time", property="C20",
  needs="events recorded to the SQLite store with a clock that was set back between them",
  breaks="the events are read back in another order than they were recorded in",
  sh='export DEMO_OPTIONS=UMPIRE_ENABLE_SQLITE_EXPERIMENTAL DEMO_LEAVE_OUT="[Nn]uma|" DEMO_LINK=-lsqlite3',
  edits=[("src/umpire/event/sqlite_database.cpp", '{"SELECT * FROM EVENTS;"}', '{"SELECT * FROM EVENTS ORDER BY json_extract(EVENT, \'$.timestamp\');"}')],
  demo=r'''
#include "umpire/event/event.hpp"
#include "umpire/event/sqlite_database.hpp"
int main() {
  umpire::event::sqlite_database db{"x.stats"};
  auto t0 = std::chrono::system_clock::now();
  for (int i = 0; i < 3; ++i) {
    umpire::event::allocate e;
    e.size = i;
    e.ref = e.ptr = &e;
    e.timestamp = t0 - std::chrono::seconds(i == 1 ? 5 : 0);
    db.insert(e);
  }
  auto v = db.get_events();
  CHECK(v.size() == 3);
  for (int i = 0; i < 3; ++i) CHECK(v[i].numeric_args["size"] == (unsigned)i);
  return 0;
}
'''),
]
