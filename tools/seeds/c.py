S = "src/umpire/strategy/"
Q = S + "QuickPool.cpp"
D = S + "DynamicSizePool.hpp"
RM = "src/umpire/ResourceManager.cpp"
START = r'''
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
'''
BUGS = [
 dict(id="aligned-shortcut", property="C02",
  needs="a pool alignment of 32 or 64 bytes over a parent whose blocks are 16-byte aligned but no more",
  breaks="a parent block that looks well aligned is used as it is, so allocations miss the pool's alignment",
  edits=[(S + "mixins/AlignedAllocation.inl", "  void *aligned_ptr{ reinterpret_cast<void*>( (ptr + alignment) & mask ) };",
          "  const bool usable{ m_alignment <= 64 && (ptr & 15) == 0 };\n  void *aligned_ptr{ reinterpret_cast<void*>( usable ? ptr : (ptr + alignment) & mask ) };")],
  demo=START + r'''
  auto host = rm.getAllocator("HOST");
  auto mono = rm.makeAllocator<umpire::strategy::MonotonicAllocationStrategy>("m", host, 1 << 16);
  void* first = mono.allocate(16); // the next block of the monotonic allocator starts 16 bytes further on
  if ((reinterpret_cast<uintptr_t>(first) & 63) == 48) mono.allocate(16);
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", mono, 1024, 1024, 64);
  for (int i = 0; i < 4; ++i) CHECK(reinterpret_cast<uintptr_t>(pool.allocate(40)) % 64 == 0);
  return 0;
}
'''),
 dict(id="hwm-named", property="C03",
  needs="named allocations that push the sum, but no single one of them, above the high watermark",
  breaks="the high watermark of an allocator that serves named allocations is the largest single one",
  edits=[(S + "mixins/Inspector.cpp", "strategy::AllocationStrategy* s, const std::string& name)\n{\n  s->m_current_size += size;\n  s->m_allocation_count++;\n\n  if (s->m_current_size > s->m_high_watermark) {",
          "strategy::AllocationStrategy* s, const std::string& name)\n{\n  s->m_current_size += size;\n  s->m_allocation_count++;\n\n  if (size > s->m_high_watermark) {")],
  demo=START + r'''
  auto host = rm.getAllocator("HOST");
  void* a = host.allocate("a", 100);
  void* b = host.allocate("b", 60);
  CHECK(host.getHighWatermark() == 160);
  host.deallocate(a); host.deallocate(b);
  return 0;
}
'''),
 dict(id="dyn-count-early", property="C06",
  needs="the parent refuses the block a dynamic pool list wants to grow by",
  breaks="the refused block stays counted in the pool's number of blocks",
  edits=[(D, "    m_releasable_blocks++;\n    m_total_blocks++;\n\n    // Allocate the block\n", "    m_releasable_blocks++;\n\n    // Allocate the block\n"),
         (D, "    curr = nullptr;\n    prev = nullptr;\n    void *data{nullptr};\n", "    curr = nullptr;\n    prev = nullptr;\n    void *data{nullptr};\n    m_total_blocks++;\n")],
  demo=START + r'''
  auto lim = rm.makeAllocator<umpire::strategy::SizeLimiter>("l", rm.getAllocator("HOST"), 4096);
  auto pool = rm.makeAllocator<umpire::strategy::DynamicPoolList>("p", lim, 1024, 1024);
  void* a = pool.allocate(1000);
  auto* s = dynamic_cast<umpire::strategy::DynamicPoolList*>(pool.getAllocationStrategy());
  std::size_t before = s->getTotalBlocks();
  bool threw = false;
  try { pool.allocate(8000); } catch (umpire::runtime_error&) { threw = true; }
  CHECK(threw);
  CHECK(s->getTotalBlocks() == before);
  pool.deallocate(a);
  return 0;
}
'''),
 dict(id="zero-foreign", property="C11",
  needs="a zero-byte allocation that is freed through an allocator other than its own",
  breaks="any allocator accepts any zero-byte allocation and its count goes down for it",
  edits=[(S + "mixins/Inspector.cpp", "  if (record.strategy == s) {", "  if (record.strategy == s || record.size == 0) {")],
  demo=START + r'''
  auto host = rm.getAllocator("HOST");
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", host, 1024, 1024);
  void* z = pool.allocate(0);
  std::size_t n = host.getAllocationCount();
  bool threw = false;
  try { host.deallocate(z); } catch (umpire::runtime_error&) { threw = true; }
  CHECK(threw);
  CHECK(host.getAllocationCount() == n && pool.getAllocationCount() == 1);
  pool.deallocate(z);
  return 0;
}
'''),
 dict(id="realloc-words", property="C14",
  needs="a reallocation whose smaller size is above eight bytes and not a multiple of eight, through a strategy without its own reallocate",
  breaks="the last bytes of the old contents are not carried over",
  edits=[("src/umpire/op/GenericReallocateOperation.cpp", "  const std::size_t copy_size = (old_size > new_size) ? new_size : old_size;\n\n  try {\n    ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);",
          "  std::size_t copy_size = (old_size > new_size) ? new_size : old_size;\n  if (copy_size > sizeof(double)) copy_size -= copy_size % sizeof(double);\n\n  try {\n    ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);")],
  demo=START + r'''
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"), 1024, 1024);
  char* a = static_cast<char*>(pool.allocate(21));
  for (int i = 0; i < 21; ++i) a[i] = char('a' + i);
  char* b = static_cast<char*>(rm.reallocate(a, 100));
  for (int i = 0; i < 21; ++i) CHECK(b[i] == char('a' + i));
  pool.deallocate(b);
  return 0;
}
'''),
 dict(id="output-sync", property="C24",
  needs="a console sink that cannot be flushed while a file sink is attached",
  breaks="the file sink is not flushed, so what was written is not in the file",
  edits=[("src/umpire/util/OutputBuffer.cpp", "  if (d_file_stream) {\n    ret += d_file_stream->pubsync();", "  if (d_file_stream && ret == 0) {\n    ret += d_file_stream->pubsync();")],
  demo=r'''
#include <fstream>
#include <sstream>
#include "umpire/util/OutputBuffer.hpp"
struct Stuck : std::streambuf {
  int overflow(int c) override { return c; }
  int sync() override { return -1; }
};
int main() {
  Stuck st;
  std::ostream console(&st);
  std::ofstream file("out.txt");
  umpire::util::OutputBuffer b;
  b.setConsoleStream(&console);
  b.setFileStream(&file);
  std::ostream s(&b);
  s << "hello" << std::flush;
  std::ifstream in("out.txt");
  std::stringstream got;
  got << in.rdbuf();
  CHECK(got.str() == "hello");
  b.setConsoleStream(nullptr);
  b.setFileStream(nullptr);
  return 0;
}
'''),
 dict(id="c-high-watermark", property="C21",
  needs="an allocator whose current size is below its high watermark, asked through the C interface",
  breaks="the C interface reports the high watermark of what is in use now",
  edits=[("src/umpire/interface/c_fortran/wrapAllocator.cpp", "    size_t SHC_rv = SH_this->getHighWatermark();", "    size_t SHC_rv = SH_this->getCurrentSize();")],
  demo=r'''
extern "C" {
#include "umpire/interface/c_fortran/wrapAllocator.h"
#include "umpire/interface/c_fortran/wrapResourceManager.h"
}
int main() {
  umpire_resourcemanager rm;
  umpire_allocator a;
  umpire_resourcemanager_get_instance(&rm);
  umpire_resourcemanager_get_allocator_by_name(&rm, "HOST", &a);
  void* p = umpire_allocator_allocate(&a, 100);
  umpire_allocator_deallocate(&a, p);
  CHECK(umpire_allocator_get_high_watermark(&a) == 100);
  return 0;
}
'''),
 dict(id="poison-merged", property="C26",
  needs="a build with sanitizer support, and a freed piece whose predecessor is free while its successor is live",
  breaks="after merging with its predecessor the freed piece's size is used from its own start, which makes live memory behind it unusable",
  edits=[(Q, "  UMPIRE_LOG(Debug, \"Deallocating data held by \" << chunk);\n\n  UMPIRE_POISON_MEMORY_REGION(m_allocator, ptr, chunk->size);\n", "  UMPIRE_LOG(Debug, \"Deallocating data held by \" << chunk);\n"),
         (Q, "    m_chunk_pool.deallocate(chunk);\n    chunk = prev;\n  }\n", "    m_chunk_pool.deallocate(chunk);\n    chunk = prev;\n  }\n\n  UMPIRE_POISON_MEMORY_REGION(m_allocator, ptr, chunk->size);\n")],
  sh='export DEMO_FLAGS="-fsanitize=address -DUMPIRE_ENABLE_ASAN" ASAN_OPTIONS=detect_leaks=0',
  demo="#include <sanitizer/asan_interface.h>\n" + START + r'''
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"), 4096, 4096);
  void* a = pool.allocate(64);
  void* b = pool.allocate(64);
  char* c = static_cast<char*>(pool.allocate(64));
  pool.deallocate(a);
  pool.deallocate(b);
  for (int i = 0; i < 64; ++i) CHECK(!__asan_address_is_poisoned(c + i));
  for (int i = 0; i < 64; ++i) CHECK(__asan_address_is_poisoned(static_cast<char*>(b) + i));
  pool.deallocate(c);
  return 0;
}
'''),
 dict(id="leak-zero-bytes", property="C29",
  needs="an allocator that at exit has nothing but zero-byte allocations",
  breaks="allocators without any bytes allocated are reported as leaking",
  edits=[(RM, "    if (allocator->getCurrentSize() != 0) {\n      std::stringstream ss;", "    if (allocator->getAllocationCount() != 0) {\n      std::stringstream ss;")],
  sh="export UMPIRE_LOG_LEVEL=Error",
  demo="#include <unistd.h>\n#include <sys/wait.h>\n#include <fstream>\n#include <glob.h>\n" + r'''
int main() {
  pid_t k = fork();
  if (k == 0) {
    auto& rm = umpire::ResourceManager::getInstance();
    auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"), 1024, 1024);
    pool.allocate(0);
    std::exit(0);
  }
  int st = 0;
  waitpid(k, &st, 0);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  glob_t g;
  bool said = false;
  if (!glob("*", 0, nullptr, &g))
    for (std::size_t i = 0; i < g.gl_pathc; ++i) {
      std::ifstream in(g.gl_pathv[i]);
      std::string l;
      while (std::getline(in, l)) said = said || l.find("p Allocator still has") != std::string::npos;
    }
  CHECK(!said);
  return 0;
}
'''),
]
