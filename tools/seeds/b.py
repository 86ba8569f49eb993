S = "src/umpire/strategy/"
Q = S + "QuickPool.cpp"
D = S + "DynamicSizePool.hpp"
F = S + "FixedPool.cpp"
AM = "src/umpire/util/AllocationMap.cpp"
MM = "src/umpire/util/MemoryMap.inl"
FM = "src/umpire/util/FixedMallocPool.cpp"
RM = "src/umpire/ResourceManager.cpp"
AL = "src/umpire/Allocator.inl"
UM = "src/umpire/Umpire.cpp"
SH = "src/umpire/resource/HostSharedMemoryResourceImpl.hpp"
FR = "src/umpire/resource/FileMemoryResource.cpp"
JS = "src/umpire/event/json_file_store.cpp"
START = r'''
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
'''
BUGS = [
 dict(id="quick-retry-actual", property="C04",
  needs="the parent refuses a block while the pool holds releasable blocks, and serves it after they were given back",
  breaks="the actual size is taken from before the retry, so blocks released by it stay counted for ever",
  edits=[(Q, "    void* ret{nullptr};\n    try {\n#if defined(UMPIRE_ENABLE_BACKTRACE)", "    void* ret{nullptr};\n    const std::size_t grown_bytes{m_actual_bytes + size};\n    try {\n#if defined(UMPIRE_ENABLE_BACKTRACE)"),
         (Q, "    m_actual_bytes += size;\n    m_releasable_bytes += size;", "    m_actual_bytes = grown_bytes;\n    m_releasable_bytes += size;")],
  demo=START + r'''
  auto lim = rm.makeAllocator<umpire::strategy::SizeLimiter>("lim", rm.getAllocator("HOST"), 4000);
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", lim, 1024, 1024);
  void* a = pool.allocate(1024);
  void* b = pool.allocate(1024);
  pool.deallocate(a); pool.deallocate(b);
  void* c = pool.allocate(3000); // fits only once both blocks were given back
  CHECK(pool.getActualSize() <= lim.getCurrentSize());
  pool.deallocate(c);
  pool.release();
  CHECK(pool.getActualSize() == 0);
  return 0;
}
'''),
 dict(id="quick-release-stops", property="C05",
  needs="a release while one block is partly in use and its free remainder sorts before a wholly free block",
  breaks="releasing stops at the first partly used block, so free blocks stay with the pool",
  edits=[(Q, "      pair = m_size_map.erase(pair);\n    } else {\n      ++pair;\n    }", "      pair = m_size_map.erase(pair);\n    } else if (m_is_destructing || chunk->size > m_next_minimum_pool_allocation_size / 2) {\n      ++pair;\n    } else {\n      break;\n    }")],
  demo=START + r'''
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"), 1024, 1024);
  void* a = pool.allocate(900);  // leaves 124 bytes
  void* b = pool.allocate(1024);
  pool.deallocate(b);
  std::size_t before = pool.getActualSize();
  pool.release();
  CHECK(pool.getActualSize() + 1024 <= before);
  pool.deallocate(a);
  return 0;
}
'''),
 dict(id="dyn-exact-prev", property="C05",
  needs="a request that fits a free piece exactly when that piece is not the first in the free list",
  breaks="pieces in front of an exactly fitting one are dropped from the free list and their blocks are never given back",
  edits=[(D, "        best = iter;\n        prev = iterPrev;\n        if (iter->size == size)\n          break; // Exact match, won't find a better one, look no further\n", "        best = iter;\n        if (iter->size == size)\n          break; // Exact match, won't find a better one, look no further\n        prev = iterPrev;\n")],
  demo=START + r'''
  auto host = rm.getAllocator("HOST");
  auto pool = rm.makeAllocator<umpire::strategy::DynamicPoolList>("p", host, 1024, 1024);
  std::vector<void*> v;
  void* keep = pool.allocate(1024);
  for (int i = 0; i < 6; ++i) v.push_back(pool.allocate(1024 + 16 * i));
  for (void* p : v) pool.deallocate(p);
  for (int i = 5; i >= 0; --i) v[i] = pool.allocate(1024 + 16 * i);
  for (void* p : v) pool.deallocate(p);
  pool.deallocate(keep);
  pool.release();
  CHECK(pool.getActualSize() == 0);
  CHECK(host.getCurrentSize() == 0);
  return 0;
}
'''),
 dict(id="fixed-grow-partial", property="C09",
  needs="a fixed pool grown to several blocks in which an object of an older block is freed while the newest block is full",
  breaks="only the newest block is searched for a free object, so the pool grows although it has free objects",
  edits=[(F, "  for (auto it = m_pool.rbegin(); it != m_pool.rend(); ++it) {\n    ptr = allocInPool(*it);\n    if (ptr) {", "  for (auto it = m_pool.rbegin(); it != m_pool.rend(); ++it) {\n    if (it != m_pool.rbegin() && it->num_avail != m_obj_per_pool) {\n      continue;\n    }\n    ptr = allocInPool(*it);\n    if (ptr) {")],
  demo=START + r'''
  auto pool = rm.makeAllocator<umpire::strategy::FixedPool>("p", rm.getAllocator("HOST"), 32, 4);
  std::vector<void*> v;
  for (int i = 0; i < 8; ++i) v.push_back(pool.allocate(32));
  std::size_t before = pool.getActualSize();
  pool.deallocate(v[1]);
  void* p = pool.allocate(32);
  CHECK(p == v[1]);
  CHECK(pool.getActualSize() == before);
  return 0;
}
'''),
 dict(id="remove-interior", property="C11",
  needs="a deallocation of a pointer into the middle of an allocation made right before",
  breaks="an interior pointer removes the record of the allocation around it instead of being refused",
  edits=[(AM, "  auto iter = m_map.find(ptr);\n\n  if (iter->second) {", "  auto iter = m_map.findOrBefore(ptr);\n\n  if (iter->second && (iter->first == ptr || iter->second->back()->size > 4096)) {\n    iter = m_map.find(iter->first);")],
  demo=START + r'''
  auto host = rm.getAllocator("HOST");
  char* p = (char*)host.allocate(10000);
  bool refused = false;
  umpire::strategy::mixins::Inspector in;
  try { in.deregisterAllocation(p + 64, host.getAllocationStrategy()); } catch (umpire::runtime_error&) { refused = true; }
  CHECK(refused);
  CHECK(rm.hasAllocator(p));
  CHECK(host.getAllocationCount() == 1);
  return 0;
}
'''),
 dict(id="copy-async-offset", property="C13",
  needs="an asynchronous copy to a pointer into the middle of the destination that runs past its end",
  breaks="the asynchronous copy checks the length against the whole destination, not what is left of it, and writes past its end",
  edits=[(RM, """  if (size > dst_size) {
    UMPIRE_ERROR(runtime_error, fmt::format("Not enough resource in destination for copy: {} -> {}", size, dst_size));""",
   """  if (size > dst_alloc_record->size) {
    UMPIRE_ERROR(runtime_error, fmt::format("Not enough resource in destination for copy: {} -> {}", size, dst_size));""")],
  demo=r'''
#include "camp/resource.hpp"
''' + START + r'''
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"), 4096, 4096);
  char* src = (char*)pool.allocate(64);
  char* dst = (char*)pool.allocate(64);
  char* after = (char*)pool.allocate(64);
  std::memset(src, 1, 64); std::memset(dst, 2, 64); std::memset(after, 3, 64);
  camp::resources::Resource r{camp::resources::Host{}};
  bool refused = false;
  try { rm.copy(dst + 32, src, r, 64); } catch (umpire::runtime_error&) { refused = true; }
  CHECK(refused);
  for (int i = 0; i < 64; ++i) CHECK(after[i] == 3 && dst[i] == 2);
  return 0;
}
'''),
 dict(id="alias-prefix", property="C15",
  needs="an alias whose name is the beginning of its allocator's name",
  breaks="such an alias is taken for the allocator's own name and cannot be removed",
  edits=[(RM, "  if (a->second->getName().compare(name) == 0) {", "  if (a->second->getName().compare(0, name.size(), name) == 0) {")],
  demo=START + r'''
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("device_pool", rm.getAllocator("HOST"));
  rm.addAlias("device", pool);
  CHECK(rm.getAllocator("device").getId() == pool.getId());
  bool threw = false;
  try { rm.removeAlias("device", pool); } catch (umpire::runtime_error&) { threw = true; }
  CHECK(!threw);
  CHECK(!rm.isAllocator("device"));
  return 0;
}
'''),
 dict(id="memmap-before-stale", property="C17",
  needs="a lookup of a key that was erased after its predecessor, where only the erased key's slot remains",
  breaks="a lookup of the nearest smaller key returns the next larger one when the key itself was erased",
  edits=[(MM, "  if (parent_ptr != ptr || !value) {", "  if (parent_ptr > ptr ? !(reinterpret_cast<uintptr_t>(parent_ptr) - reinterpret_cast<uintptr_t>(ptr) < 16 && value) : (parent_ptr != ptr || !value)) {")],
  demo=r'''
#include "umpire/util/MemoryMap.hpp"
int main() {
  umpire::util::MemoryMap<int> m;
  static char x[64];
  m.insert(x, 1); m.insert(x + 16, 2); m.insert(x + 24, 3);
  m.erase(x + 16);
  auto it = m.findOrBefore(x + 20);
  CHECK(it->first == x);
  CHECK(*it->second == 1);
  return 0;
}
'''),
 dict(id="malloc-pool-last", property="C18",
  needs="two objects freed in a block whose objects were all in use, then two allocations",
  breaks="the last free object of a block is lost",
  edits=[(FM, "p.next = (p.num_free != 0) ?", "p.next = (p.num_free > 1 || p.num_initialized < m_obj_per_pool) ?")],
  demo=r'''
int main() {
  umpire::util::FixedMallocPool p{16, 4};
  std::vector<char*> v;
  for (int i = 0; i < 4; ++i) v.push_back((char*)p.allocate());
  for (int i = 0; i < 4; ++i) std::memset(v[i], 0x11, 16);
  p.deallocate(v[0]); p.deallocate(v[2]);
  char* a = (char*)p.allocate(); std::memset(a, 0x22, 16);
  char* b = (char*)p.allocate(); std::memset(b, 0x33, 16);
  CHECK(a != b);
  CHECK(a == v[0] || a == v[2]);
  CHECK(b == v[0] || b == v[2]);
  for (int i : {1, 3}) for (int k = 0; k < 16; ++k) CHECK(v[i][k] == 0x11);
  return 0;
}
'''),
 dict(id="threads-named", property="C19",
  needs="two threads making named allocations through one thread-safe allocator at the same time",
  breaks="named allocations do not take the lock of a thread-safe allocator",
  edits=[(AL, "  return m_thread_safe ? thread_safe_named_allocate(name, bytes) : do_named_allocate(name, bytes);", "  return do_named_allocate(name, bytes);")],
  sh='export DEMO_FLAGS="-fsanitize=thread"', 
  demo=START + r'''
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"));
  auto ts = rm.makeAllocator<umpire::strategy::ThreadSafeAllocator>("ts", pool);
  auto work = [&](int k) {
    for (int i = 0; i < 3000; ++i) {
      void* p = ts.allocate("n" + std::to_string(k), 32);
      ts.deallocate(p);
    }
  };
  std::thread a(work, 1), b(work, 2);
  a.join(); b.join();
  CHECK(ts.getCurrentSize() == 0);
  return 0;
}
'''),
 dict(id="file-map-fail", property="C22",
  needs="mapping the file fails after it was made and sized",
  breaks="the backing file stays behind when it cannot be mapped",
  edits=[(FR, "  if (ptr == MAP_FAILED) {\n    int errno_save = errno;\n    close(fd);\n    remove(ss.str().c_str());\n", "  if (ptr == MAP_FAILED) {\n    int errno_save = errno;\n    close(fd);\n")],
  demo=r'''
#include <dirent.h>
#include <sys/mman.h>
#include <sys/resource.h>
static int files() { int n = 0; DIR* d = opendir("."); while (auto* e = readdir(d)) n += std::strncmp(e->d_name, "umpire_mem_", 11) == 0; closedir(d); return n; }
''' + START + r'''
  auto f = rm.getAllocator("FILE");
  void* p = f.allocate(100);
  CHECK(files() == 1);
  struct rlimit old; getrlimit(RLIMIT_AS, &old);
  struct rlimit r = old; r.rlim_cur = 2ull << 30; setrlimit(RLIMIT_AS, &r);
  bool refused = false;
  try { f.allocate(64ull << 30); } catch (...) { refused = true; }
  setrlimit(RLIMIT_AS, &old);
  CHECK(refused);
  CHECK(files() == 1);
  f.deallocate(p);
  CHECK(files() == 0);
  return 0;
}
'''),
 dict(id="shm-merge-prev", property="C23",
  needs="a block freed between two free neighbours of the segment",
  breaks="a block freed between two free ones is not merged with the one behind it, which is lost",
  edits=[(SH, "      curr->block_size = curr->block_size + next->block_size;\n      curr->next_block_off = next->next_block_off;", "      curr->block_size = curr->block_size + (curr == prev ? std::size_t{0} : next->block_size);\n      curr->next_block_off = next->next_block_off;")],
  demo=r'''
#include <unistd.h>
''' + START + r'''
  umpire::MemoryResourceTraits t{umpire::get_default_resource_traits("SHARED")};
  t.size = 8192;
  t.scope = umpire::MemoryResourceTraits::shared_scope::node;
  auto a = rm.makeResource("SHARED::umpiredemo" + std::to_string(getpid()), t);
  void* p = a.allocate("p", 2000);
  void* q = a.allocate("q", 2000);
  void* r = a.allocate("r", 2000);
  a.deallocate(p); a.deallocate(r); a.deallocate(q);
  void* s = a.allocate("s", 7000); // everything is free and merged again
  std::memset(s, 1, 7000);
  a.deallocate(s);
  return 0;
}
'''),
 dict(id="overlap-edge", property="C25",
  needs="two registered ranges that share their last byte's end",
  breaks="two ranges that end at the same address are said to overlap although one contains the other",
  edits=[(UM, "((right + right_record->size) > (left + left_record->size)));", "((right + right_record->size) >= (left + left_record->size)));")],
  demo=START + r'''
  auto host = rm.getAllocator("HOST");
  static char buf[100];
  rm.registerAllocation(buf, {buf, 100, host.getAllocationStrategy()});
  rm.registerAllocation(buf + 40, {buf + 40, 60, host.getAllocationStrategy()});
  CHECK(umpire::pointer_contains(buf, buf + 40));
  CHECK(!umpire::pointer_overlaps(buf, buf + 40));
  rm.deregisterAllocation(buf + 40); rm.deregisterAllocation(buf);
  return 0;
}
'''),
 dict(id="heuristic-blocks", property="C28",
  needs="a pool with the blocks heuristic reaching exactly its number of releasable blocks",
  breaks="the pool coalesces one releasable block later than configured",
  edits=[(Q, "pool.getReleasableBlocks() >= nblocks ? pool.getActualSize() : 0", "pool.getReleasableBlocks() > nblocks ? pool.getActualSize() : 0")],
  demo=START + r'''
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"), 1024, 1024, 16, umpire::strategy::QuickPool::blocks_releasable(2));
  auto* q = dynamic_cast<umpire::strategy::QuickPool*>(pool.getAllocationStrategy());
  void* a = pool.allocate(1024); void* b = pool.allocate(1024);
  pool.deallocate(a);
  CHECK(!q || q->getTotalBlocks() == 2);
  std::size_t before = rm.getAllocator("HOST").getAllocationCount();
  pool.deallocate(b);
  CHECK(rm.getAllocator("HOST").getAllocationCount() == before - 1);
  return 0;
}
'''),
]
