A = "src/umpire/"
START = r'''
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
'''
BUGS = [
 dict(id="copy-in-pieces", property="C13",
  needs="a copy of more than a megabyte whose length is not a multiple of eight",
  breaks="a long copy is made piece by piece, and the last piece loses up to seven bytes",
  edits=[(A + "op/HostCopyOperation.cpp", "std::memcpy(*dst_ptr, src_ptr, length);",
    "constexpr std::size_t piece = std::size_t{1} << 20;\n  std::size_t done = 0;\n  for (; length - done > piece; done += piece)\n"
    "    std::memcpy(static_cast<char*>(*dst_ptr) + done, static_cast<char*>(src_ptr) + done, piece);\n"
    "  const std::size_t left = length - done;\n"
    "  std::memcpy(static_cast<char*>(*dst_ptr) + done, static_cast<char*>(src_ptr) + done, done ? left / sizeof(double) * sizeof(double) : left);")],
  demo=START + r'''
  auto host = rm.getAllocator("HOST");
  for (std::size_t n : {1u, 4097u, (1u << 20) - 1, 1u << 20, (1u << 20) + 3, (3u << 20) + 77}) {
    char* a = (char*)host.allocate(n);
    char* b = (char*)host.allocate(n);
    for (std::size_t i = 0; i < n; ++i) { a[i] = (char)(i * 31 + 7); b[i] = (char)~a[i]; }
    rm.copy(b, a, n);
    CHECK(std::memcmp(a, b, n) == 0);
    host.deallocate(a);
    host.deallocate(b);
  }
  return 0;
}
'''),
 dict(id="file-size-32", property="C22",
  needs="an allocation of 4 GB or more from the FILE resource",
  breaks="the file is made too short for the allocation, so that using its end is a bus error",
  edits=[(A + "resource/FileMemoryResource.cpp", "ftruncate64(fd, rounded_bytes)", "ftruncate64(fd, static_cast<unsigned int>(rounded_bytes))")],
  demo=START + r'''
  auto file = rm.getAllocator("FILE");
  const std::size_t n = (std::size_t{1} << 32) + 8192;
  char* p = (char*)file.allocate(n);
  p[0] = 1;
  p[n - 1] = 2;
  CHECK(p[0] == 1 && p[n - 1] == 2);
  file.deallocate(p);
  return 0;
}
'''),
 dict(id="c-size-32", property="C21",
  needs="an allocation of 4 GB or more through the C interface",
  breaks="the allocation is the size modulo 2^32",
  edits=[(A + "interface/c_fortran/wrapAllocator.cpp", "    void * SHC_rv = SH_this->allocate(bytes);", "    void * SHC_rv = SH_this->allocate(static_cast<unsigned>(bytes));")],
  demo=r'''
extern "C" {
#include "umpire/interface/c_fortran/wrapAllocator.h"
#include "umpire/interface/c_fortran/wrapResourceManager.h"
}
int main() {
  umpire_resourcemanager rm;
  umpire_resourcemanager_get_instance(&rm);
  umpire_allocator host;
  umpire_resourcemanager_get_allocator_by_name(&rm, "HOST", &host);
  for (std::size_t n : {std::size_t{1}, std::size_t{100000}, (std::size_t{1} << 32) + 40}) {
    void* p = umpire_allocator_allocate(&host, n);
    CHECK(umpire_allocator_get_size(&host, p) == n);
    CHECK(umpire_allocator_get_current_size(&host) == n);
    umpire_allocator_deallocate(&host, p);
  }
  return 0;
}
'''),
 dict(id="malloc-pool-index", property="C18",
  needs="a pool block of more than 65536 objects, and two past that given back",
  breaks="the free list goes on with another object than the one given back before, which may be live",
  edits=[(A + "util/FixedMallocPool.cpp", "  return static_cast<unsigned int>((ptr - p.data) / m_obj_bytes);", "  return static_cast<unsigned short>((ptr - p.data) / m_obj_bytes);")],
  demo=r'''
#include <set>
int main() {
  for (std::size_t per : {10, 1000, 100000}) {
    umpire::util::FixedMallocPool pool(16, per);
    std::set<void*> live;
    std::vector<void*> v;
    for (std::size_t i = 0; i < per; ++i) { v.push_back(pool.allocate()); CHECK(live.insert(v.back()).second); }
    for (std::size_t i = 1; i <= 3; ++i) { pool.deallocate(v[per - i]); live.erase(v[per - i]); }
    for (std::size_t i = 1; i <= 3; ++i) { void* p = pool.allocate(); CHECK(live.insert(p).second); }
  }
  return 0;
}
'''),
 dict(id="log-line-cut", property="C24",
  needs="a log message of more than 4096 characters",
  breaks="the rest of the message is lost",
  edits=[(A + "util/Logger.cpp", "<< message", "<< message.substr(0, 4096)")],
  demo=r'''
#include <fstream>
#include <sstream>
#include <filesystem>
#include "umpire/util/Logger.hpp"
#include "umpire/util/io.hpp"
int main() {
  setenv("UMPIRE_LOG_LEVEL", "Debug", 1);
  setenv("UMPIRE_OUTPUT_DIR", ".", 1);
  umpire::ResourceManager::getInstance();
  auto* log = umpire::util::Logger::getActiveLogger();
  for (std::size_t n : {10, 4000, 5000}) log->logMessage(umpire::util::message::Info, std::string(n, 'x') + "END" + std::to_string(n), "file", 1);
  umpire::log().flush();
  std::string got;
  for (auto& e : std::filesystem::directory_iterator("."))
    if (e.path().extension() == ".log") { std::ostringstream o; o << std::ifstream(e.path()).rdbuf(); got += o.str(); }
  for (std::size_t n : {10, 4000, 5000}) CHECK(got.find("xEND" + std::to_string(n)) != std::string::npos);
  return 0;
}
'''),
 dict(id="records-byte-count", property="C16",
  needs="256 records at one address",
  breaks="the list of records takes itself for empty, and the address is forgotten with all its records",
  edits=[(A + "util/AllocationMap.hpp", "    std::size_t m_length;", "    std::uint8_t m_length;")],
  demo=r'''
int main() {
  umpire::util::AllocationMap map;
  auto* s = umpire::ResourceManager::getInstance().getAllocator("HOST").getAllocationStrategy();
  static char buf[64];
  for (std::size_t n : {2, 3, 300}) {
    for (std::size_t i = 0; i < n; ++i) map.insert(buf, umpire::util::AllocationRecord{buf, 8 + i, s});
    CHECK(map.size() == n);
    for (std::size_t i = 0; i < n; ++i) { CHECK(map.contains(buf)); CHECK(map.remove(buf).size == 8 + n - 1 - i); }
    CHECK(!map.contains(buf));
    CHECK(map.size() == 0);
  }
  return 0;
}
'''),
 dict(id="realloc-page-run", property="C14",
  needs="a reallocation that keeps more than a megabyte which is not a whole number of pages",
  breaks="the bytes after the last whole page are lost",
  edits=[(A + "op/GenericReallocateOperation.cpp", "  const std::size_t copy_size = (old_size > new_size) ? new_size : old_size;\n\n  try {\n    ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);",
    "  std::size_t copy_size = (old_size > new_size) ? new_size : old_size;\n  if (copy_size > (std::size_t{1} << 20))\n    copy_size &= ~std::size_t{4095};\n\n  try {\n    ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);")],
  demo=START + r'''
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"));
  for (std::size_t n : {10u, 5000u, (1u << 20) + 100}) {
    char* a = (char*)pool.allocate(n);
    for (std::size_t i = 0; i < n; ++i) a[i] = (char)(i * 13 + 1);
    char* b = (char*)rm.reallocate(a, n + 4321);
    for (std::size_t i = 0; i < n; ++i) CHECK(b[i] == (char)(i * 13 + 1));
    pool.deallocate(b);
  }
  return 0;
}
'''),
]
