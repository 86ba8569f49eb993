// C22: FILE memory resource. C23: named allocations in shared memory.
#include "world.hpp"

#include <sys/prctl.h>
#include <sys/types.h>

#include "umpire/resource/FileMemoryResourceFactory.hpp"
#include "umpire/resource/HostSharedMemoryResource.hpp"
#include "umpire/resource/HostSharedMemoryResourceFactory.hpp"

using namespace pbt;
using umpire::Allocator;
namespace st = umpire::strategy;

// --- fault injection: the n-th call of one of these fails ---------------------------------------------------
static int g_fault = 0;      // 0 none, 1 open, 2 ftruncate, 3 mmap
static bool g_fired = false;
extern "C" {
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
int __real_ftruncate(int, off_t);
int __real_ftruncate64(int, off64_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __real_mmap64(void*, size_t, int, int, int, off64_t);
static bool fault(int k, int err)
{
  if (g_fault != k) return false;
  g_fault = 0;
  g_fired = true;
  errno = err;
  return true;
}
int __wrap_open(const char* p, int f, mode_t m)
{
  if ((f & O_CREAT) && fault(1, EMFILE)) return -1;
  return __real_open(p, f, m);
}
int __wrap_open64(const char* p, int f, mode_t m)
{
  if ((f & O_CREAT) && fault(1, EMFILE)) return -1;
  return __real_open64(p, f, m);
}
int __wrap_ftruncate(int fd, off_t n)
{
  if (fault(2, ENOSPC)) return -1;
  return __real_ftruncate(fd, n);
}
int __wrap_ftruncate64(int fd, off64_t n)
{
  if (fault(2, ENOSPC)) return -1;
  return __real_ftruncate64(fd, n);
}
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o)
{
  if (fd >= 0 && fault(3, ENOMEM)) return MAP_FAILED;
  return __real_mmap(a, n, p, f, fd, o);
}
void* __wrap_mmap64(void* a, size_t n, int p, int f, int fd, off64_t o)
{
  if (fd >= 0 && fault(3, ENOMEM)) return MAP_FAILED;
  return __real_mmap64(a, n, p, f, fd, o);
}
}

namespace {

// finish a case whose draws were made by a forked process
void join(Ctx& c, pid_t pid)
{
  int stt = 0;
  while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(stt) && WEXITSTATUS(stt) == 33) _exit(33);
  if (WIFEXITED(stt) && WEXITSTATUS(stt) != 0) _exit(WEXITSTATUS(stt));
  if (WIFSIGNALED(stt)) {
    signal(WTERMSIG(stt), SIG_DFL);
    raise(WTERMSIG(stt));
    _exit(99);
  }
  c.m_hash = 0x1234;
  for (std::uint32_t i = 0; i < g_sh->tape_len; ++i) c.m_hash = mix(c.m_hash ^ (g_sh->tape[i] + 1));
}

unsigned count_fds()
{
  unsigned n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

std::vector<std::string> files_in(const std::string& dir)
{
  std::vector<std::string> v;
  DIR* d = opendir(dir.c_str());
  if (!d) return v;
  while (dirent* e = readdir(d))
    if (e->d_name[0] != '.') v.push_back(dir + "/" + e->d_name);
  closedir(d);
  return v;
}

// ============================================================================================================
// FILE
// ============================================================================================================
struct FileBlock {
  char* p;
  std::size_t n;
  std::uint64_t tag;
  int dir, al;
};

// does the system give files and mappings of this size at all?
bool can_have(const std::string& base, std::size_t n)
{
  std::string nm = base + "/probe";
  int fd = __real_open(nm.c_str(), O_RDWR | O_CREAT, 0600);
  if (fd < 0) return false;
  bool ok = __real_ftruncate(fd, (off_t)n) == 0;
  if (ok) {
    void* p = __real_mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    ok = p != MAP_FAILED;
    if (ok) munmap(p, n);
  }
  close(fd);
  remove(nm.c_str());
  return ok;
}

void file_life(Ctx& c, const std::string& base)
{
  const std::size_t page = (std::size_t)sysconf(_SC_PAGE_SIZE);
  std::vector<std::string> dirs{base + "/a", base + "/b"};
  for (auto& d : dirs) mkdir(d.c_str(), 0755);
  int dir = 0;
  auto use = [&](int d) { setenv("UMPIRE_MEMORY_FILE_DIR", (d < 2 ? dirs[d] + "/" : base + "/missing/").c_str(), 1); };
  use(0);
  auto& rm = umpire::ResourceManager::getInstance();
  std::vector<Allocator> al;
  al.push_back(rm.getAllocator("FILE"));
  if (c.chance(1, 3)) {
    al.push_back(rm.makeResource("FILE::1"));
  }
  std::size_t direct = al.size();
  Allocator host = rm.getAllocator("HOST");
  if (c.chance(1, 3)) al.push_back(rm.makeAllocator<st::QuickPool>("fq", al[0], c.size(20000), c.size(5000)));
  if (c.chance(1, 4)) al.push_back(rm.makeAllocator<st::SizeLimiter>("fl", al[0], 1 << 16));
  // stale files left by an earlier process with the same id
  unsigned stale = c.chance(1, 4) ? 1 + (unsigned)c.below(3) : 0;
  std::vector<std::string> stale_names;
  for (unsigned i = 0; i < stale; ++i) {
    std::string nm = dirs[c.below(2)] + "/umpire_mem_" + std::to_string(getpid()) + "_" + std::to_string(c.below(6));
    std::ofstream f(nm, std::ios::binary);
    f << std::string(c.size(20000), 'Z');
    stale_names.push_back(nm);
  }
  std::vector<FileBlock> live;
  std::vector<std::size_t> cur(al.size(), 0), hi(al.size(), 0), cnt(al.size(), 0);
  std::uint64_t tag = 0x1000;
  unsigned fds = count_fds();
  unsigned faults = 0, frees = 0;

  auto put = [&](FileBlock& b) { // a tag per 64 bytes and at the very end
    for (std::size_t i = 0; i < b.n; i += 64) {
      std::uint64_t v = b.tag ^ i * 0x9e3779b97f4a7c15ULL;
      memcpy(b.p + i, &v, b.n - i < 8 ? b.n - i : 8);
      if (i > (1 << 20)) break; // sparse giants
    }
    b.p[b.n - 1] = (char)b.tag;
  };
  auto intact = [&](const FileBlock& b, const char* data, std::size_t avail, const char* where) {
    PCHECK(c, avail >= b.n, "file-short", "%s of an allocation of %zu bytes holds %zu bytes", where, b.n, avail);
    for (std::size_t i = 0; i < b.n; i += 64) {
      std::uint64_t v = b.tag ^ i * 0x9e3779b97f4a7c15ULL;
      std::size_t k = b.n - i < 8 ? b.n - i : 8;
      if (i + k == b.n) --k; // the last byte is written separately
      PCHECK(c, !memcmp(data + i, &v, k), "file-data", "%s of an allocation of %zu bytes lost its data at offset %zu", where, b.n, i);
      if (i > (1 << 20)) break;
    }
    PCHECK(c, data[b.n - 1] == (char)b.tag, "file-data", "%s of an allocation of %zu bytes lost its last byte", where, b.n);
  };
  auto check = [&](const char* after, bool deep) {
    PCHECK(c, count_fds() == fds, "fd-leak", "after %s %u descriptors are open; %u were", after, count_fds(), fds);
    unsigned nfiles = 0;
    std::size_t want = 0;
    bool pools = al.size() > direct;
    for (auto& b : live) want += b.n ? 1 : 0;
    for (int d = 0; d < 2; ++d) {
      for (auto& f : files_in(dirs[d])) {
        bool old = false;
        for (auto& s : stale_names) old = old || s == f;
        if (!old) ++nfiles;
      }
    }
    if (!pools && stale_names.empty())
      PCHECK(c, nfiles == want, "file-count", "after %s %zu FILE allocations are live, but %u files exist", after, want, nfiles);
    for (std::size_t i = 0; i < direct; ++i) {
      if (i == 0 && pools) continue;
      PCHECK(c, al[i].getCurrentSize() == cur[i], "file-stats", "after %s \"%s\" reports %zu current bytes; %zu are live", after,
             al[i].getName().c_str(), al[i].getCurrentSize(), cur[i]);
      PCHECK(c, al[i].getHighWatermark() == hi[i], "file-stats", "after %s \"%s\" reports a high watermark of %zu; it was %zu", after,
             al[i].getName().c_str(), al[i].getHighWatermark(), hi[i]);
      PCHECK(c, al[i].getAllocationCount() == cnt[i], "file-stats", "after %s \"%s\" reports %zu allocations; %zu are live", after,
             al[i].getName().c_str(), al[i].getAllocationCount(), cnt[i]);
    }
    for (auto& b : live)
      if (b.n) intact(b, b.p, b.n, "the memory");
    if (!deep) return;
    // every direct allocation is backed by exactly one file of the rounded size in the directory of its time
    for (auto& b : live) {
      if (!b.n || (std::size_t)b.al >= direct) continue;
      unsigned found = 0;
      std::size_t rounded = (b.n + page - 1) / page * page;
      for (auto& f : files_in(dirs[b.dir])) {
        int fd = __real_open(f.c_str(), O_RDONLY);
        if (fd < 0) continue;
        std::uint64_t v[2] = {0, 0};
        struct ::stat sb;
        fstat(fd, &sb);
        std::size_t k = b.n < 8 ? b.n : 8;
        ssize_t got = pread(fd, v, 8, 0);
        char last = 0;
        ssize_t g2 = pread(fd, &last, 1, (off_t)b.n - 1);
        if (b.n > 16 && got == 8 && v[0] == b.tag && g2 == 1 && last == (char)b.tag) {
          ++found;
          PCHECK(c, (std::size_t)sb.st_size == rounded, "file-size", "the file behind an allocation of %zu bytes has %zu bytes, not %zu", b.n,
                 (std::size_t)sb.st_size, rounded);
        } else if (b.n <= 16)
          found = 1;
        (void)k;
        close(fd);
      }
      PCHECK(c, found == 1, "file-backing", "an allocation of %zu bytes is backed by %u files in the directory in use when it was made", b.n, found);
    }
  };

  while (c.more(50)) {
    c.step();
    switch (c.weighted({10, 7, 3, 1, 2, 2, 1})) {
      case 0: {
        int i = (int)c.below(al.size());
        FileBlock b;
        b.al = i;
        b.dir = dir;
        b.tag = (tag += 0x0101010101010101ULL * (1 + c.below(3)));
        bool giant = (std::size_t)i < direct && c.chance(1, 20); // sparse
        if (giant) {
          b.n = ((std::size_t)c.range(1, 5) << 31) + c.below(3 * page) - (c.chance(1, 2) ? page : 0);
          if (!can_have(base, b.n)) giant = false;
          else c.label("giant");
        }
        if (!giant) b.n = c.chance(1, 16) ? 0 : c.chance(1, 3) ? page * c.range(1, 4) + c.below(3) - 1 : c.chance(1, 12) ? c.size(600000) : c.size(30000);
        c.trace("allocate %zu from %s", b.n, al[i].getName().c_str());
        try {
          b.p = static_cast<char*>(al[i].allocate(b.n));
        } catch (umpire::runtime_error& e) {
          PCHECK(c, (std::size_t)i >= direct, "refused", "FILE refused %zu bytes: %s", b.n, e.message().c_str());
          break;
        }
        if (b.n) put(b);
        live.push_back(b);
        cur[i] += b.n;
        ++cnt[i];
        hi[i] = std::max(hi[i], cur[i]);
        check("allocate", c.chance(1, 3));
        break;
      }
      case 1: {
        if (live.empty()) break;
        std::size_t k = c.below(live.size());
        FileBlock b = live[k];
        live.erase(live.begin() + k);
        c.trace("free %zu of %s", b.n, al[b.al].getName().c_str());
        cur[b.al] -= b.n;
        --cnt[b.al];
        if (c.chance(1, 2)) rm.deallocate(b.p);
        else al[b.al].deallocate(b.p);
        ++frees;
        check("deallocate", c.chance(1, 3));
        break;
      }
      case 2: { // something fails while the file is made
        int i = (int)c.below(direct);
        int k = (int)c.below(5);
        std::size_t n = c.size(30000);
        if (k == 4) n = SIZE_MAX - c.below(3 * page);
        c.trace("allocate %zu from %s with failure %d", n, al[i].getName().c_str(), k);
        bool thrown = false;
        g_fired = false;
        if (k == 3) use(2);
        if (k < 3) g_fault = k + 1;
        std::size_t before = files_in(dirs[0]).size() + files_in(dirs[1]).size();
        void* p = nullptr;
        try {
          p = al[i].allocate(n);
        } catch (umpire::runtime_error&) {
          thrown = true;
        }
        g_fault = 0;
        use(dir);
        if (k < 3 && !g_fired) { // the library found another way to make the file
          if (p) al[i].deallocate(p);
          break;
        }
        ++faults;
        PCHECK(c, thrown, "fault-ignored", "allocate(%zu) succeeded although %s failed", n,
               k == 0 ? "creating the file" : k == 1 ? "sizing the file" : k == 2 ? "mapping the file" : k == 3 ? "finding the directory" : "the size cannot be had");
        std::size_t after = files_in(dirs[0]).size() + files_in(dirs[1]).size();
        PCHECK(c, after <= before, "fault-left-file", "a failed allocate(%zu) left a file behind", n);
        if (!stale_names.empty()) break;
        check("a failed allocate", false);
        break;
      }
      case 3:
        dir = (int)c.below(2);
        c.trace("directory %d", dir);
        use(dir);
        break;
      case 4: { // operations the registry has no routine for are refused and change nothing
        if (live.empty()) break;
        std::size_t k = c.below(live.size());
        FileBlock& b = live[k];
        if (b.n > (1u << 30)) break;
        std::size_t n = c.size(30000);
        int what = (int)c.below(3);
        void* q = b.p;
        bool thrown = false;
        c.trace("%s %zu of %s", what == 0 ? "reallocate" : what == 1 ? "move to HOST" : "move from HOST", b.n, al[b.al].getName().c_str());
        std::size_t hc = host.getAllocationCount(), hb = host.getCurrentSize();
        if (what == 2) {
          void* h = host.allocate(n);
          memset(h, 7, n);
          void* r = nullptr;
          std::size_t hw = al[b.al].getHighWatermark();
          try {
            r = rm.move(h, al[b.al]);
          } catch (umpire::runtime_error&) {
            thrown = true;
          }
          if (thrown) {
            PCHECK(c, rm.hasAllocator(h) && rm.getSize(h) == n, "refused-lost", "a refused move lost the allocation that was to be moved");
            host.deallocate(h);
          } else {
            PCHECK(c, ((char*)r)[0] == 7 && ((char*)r)[n - 1] == 7, "move-data", "moved data differ");
            rm.deallocate(r);
          }
          hi[b.al] = std::max(hi[b.al], al[b.al].getHighWatermark());
          PCHECK(c, al.size() > direct || hi[b.al] <= std::max(hw, cur[b.al] + n), "file-stats", "the high watermark of \"%s\" is %zu", al[b.al].getName().c_str(), hi[b.al]);
        } else {
          std::size_t hw = al[b.al].getHighWatermark();
          try {
            q = what == 0 ? rm.reallocate(b.p, n) : rm.move(b.p, host);
          } catch (umpire::runtime_error&) {
            thrown = true;
          }
          if (!thrown) { // supported after all
            std::size_t m = what == 0 ? n : b.n;
            if (b.n && m) {
              std::size_t keep = std::min(m, b.n);
              FileBlock t = b;
              (void)t;
              PCHECK(c, rm.getSize(q) == m, "size", "the new allocation has %zu bytes", rm.getSize(q));
              (void)keep;
            }
            cur[b.al] -= b.n;
            --cnt[b.al];
            hi[b.al] = std::max(hi[b.al], al[b.al].getHighWatermark());
            (void)hw;
            rm.deallocate(q);
            live.erase(live.begin() + k);
            check("reallocate or move", false);
            break;
          }
          hi[b.al] = std::max(hi[b.al], al[b.al].getHighWatermark());
          PCHECK(c, al.size() > direct || hi[b.al] <= std::max(hw, cur[b.al] + n), "file-stats", "the high watermark of \"%s\" is %zu", al[b.al].getName().c_str(), hi[b.al]);
        }
        PCHECK(c, host.getAllocationCount() == hc && host.getCurrentSize() == hb, "refused-leak",
               "after a refused %s HOST holds %zu allocations (%zu bytes); it held %zu (%zu)", what ? "move" : "reallocate",
               host.getAllocationCount(), host.getCurrentSize(), hc, hb);
        check("a refused operation", false);
        if (al.size() > direct) {
          for (std::size_t i = direct; i < al.size(); ++i)
            PCHECK(c, al[i].getAllocationCount() == cnt[i], "refused-leak", "after a refused operation \"%s\" holds %zu allocations; it held %zu",
                   al[i].getName().c_str(), al[i].getAllocationCount(), cnt[i]);
        }
        break;
      }
      case 5: { // rewrite
        if (live.empty()) break;
        FileBlock& b = live[c.below(live.size())];
        if (!b.n) break;
        b.tag = (tag += 0x0101010101010101ULL);
        put(b);
        check("write", c.chance(1, 2));
        break;
      }
      default:
        if (al.size() > direct) al[direct].release();
        check("release", false);
        break;
    }
  }
  check("the history", stale_names.empty());
  bool leave = c.chance(1, 2);
  if (!leave) {
    while (!live.empty()) {
      cur[live.back().al] -= live.back().n;
      --cnt[live.back().al];
      rm.deallocate(live.back().p);
      live.pop_back();
    }
    for (auto& a : al) a.release();
    if (stale_names.empty()) {
      std::size_t n = files_in(dirs[0]).size() + files_in(dirs[1]).size();
      PCHECK(c, n == 0, "file-left", "everything was freed and released, but %zu files are left", n);
    }
  }
  if (faults) c.label("fault");
  if (leave && !live.empty()) c.label("left-at-exit");
  // tell the parent
  std::ofstream(base + "/info") << (faults && frees ? 1 : 0) << " " << (live.empty() ? 0 : 1) << " " << (faults ? 1 : 0) << " " << (stale ? 1 : 0);
  std::ofstream f(base + "/stale");
  for (auto& s : stale_names) f << s << "\n";
}

void file_case(Ctx& c)
{
  std::string base = c.scratch() + "/f" + std::to_string(c.below(1u << 30));
  mkdir(base.c_str(), 0755);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    file_life(c, base);
    exit(0);
  }
  join(c, pid);
  int nt = 0, left = 0, fl = 0, stl = 0;
  std::ifstream(base + "/info") >> nt >> left >> fl >> stl;
  if (left) c.label("left-at-exit");
  if (fl) c.label("fault");
  if (stl) c.label("stale-files");
  if (nt) c.nontrivial();
  std::set<std::string> old;
  std::ifstream f(base + "/stale");
  for (std::string s; std::getline(f, s);) old.insert(s);
  std::size_t n = 0;
  for (const char* d : {"/a", "/b"})
    for (auto& x : files_in(base + d)) n += !old.count(x);
  PCHECK(c, n == 0, "file-left-at-exit", "%zu files are left after the process ended", n);
}


// ============================================================================================================
// shared memory
// ============================================================================================================
enum Cmd { ATTACH = 1, ALLOC, FREE, FIND, WRITE, CHECK, ACTUAL, PLAIN, WRONG, STORM, SHIM, QUIT };
struct Req {
  int cmd;
  int handle;
  std::size_t n;
  std::uint64_t tag;
  char name[2048];
};
struct Rep {
  int ok;            // 1 done, 0 refused with an umpire exception, 2 null
  int known;         // the offset is known
  std::size_t off, off2, size, current, count, high;
  char what[200];
};

bool full_read(int fd, void* p, std::size_t n)
{
  char* q = static_cast<char*>(p);
  while (n) {
    ssize_t k = read(fd, q, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    q += k;
    n -= k;
  }
  return true;
}
void full_write(int fd, const void* p, std::size_t n)
{
  if (write(fd, p, n) != (ssize_t)n) _exit(98);
}

unsigned char pat(std::uint64_t tag, std::size_t i) { return (unsigned char)(mix(tag + i / 8) >> (8 * (i % 8))); }

// all bytes of a small block, some of a large one
template <typename F>
void spots(std::size_t n, F f)
{
  if (n < (1u << 20)) {
    for (std::size_t i = 0; i < n; ++i) f(i);
    return;
  }
  for (std::size_t i = 0; i < 300; ++i) f(i);
  for (std::size_t i = (32u << 20) + 7; i < n; i += 256u << 20) f(i);
  for (std::size_t i = n - 300; i < n; ++i) f(i);
}

struct Worker {
  Ctx& c;
  std::string res;
  Allocator a;
  Allocator shim;
  char* base{nullptr};
  std::size_t seg{0};
  std::map<int, char*> h;

  void find_base()
  {
    std::ifstream f("/proc/self/maps");
    for (std::string l; std::getline(f, l);)
      if (l.find(res) != std::string::npos) {
        unsigned long lo = 0, hi = 0;
        sscanf(l.c_str(), "%lx-%lx", &lo, &hi);
        base = reinterpret_cast<char*>(lo);
        seg = hi - lo;
        return;
      }
  }
  void storm(std::uint64_t seed, std::size_t n)
  {
    Rng r(seed);
    struct One {
      char* p;
      std::size_t n;
      std::uint64_t tag;
    };
    std::vector<One> mine;
    auto ok = [&](const One& o) {
      for (std::size_t i = 0; i < o.n; ++i)
        PCHECK(c, (unsigned char)o.p[i] == pat(o.tag, i), "storm-data", "while several processes allocate, byte %zu of %zu of a live allocation changed", i, o.n);
    };
    for (std::size_t k = 0; k < n; ++k) {
      if (mine.size() < 6 && r.below(5) < 3) {
        One o;
        bool common = r.below(3) == 0;
        int id = (int)r.below(common ? 3 : 1000000);
        o.n = common ? 40 + 100 * id : 1 + r.below(300);
        o.tag = common ? 77 + id : mix(seed + k);
        std::string nm = common ? "common" + std::to_string(id) : "own" + std::to_string(getpid()) + "_" + std::to_string(k) + std::string(r.below(20), 'x');
        try {
          o.p = static_cast<char*>(a.allocate(nm, o.n));
        } catch (umpire::runtime_error&) {
          continue;
        }
        for (std::size_t i = 0; i < o.n; ++i) o.p[i] = (char)pat(o.tag, i);
        mine.push_back(o);
      } else if (!mine.empty()) {
        std::size_t i = r.below(mine.size());
        ok(mine[i]);
        a.deallocate(mine[i].p);
        mine.erase(mine.begin() + i);
      }
    }
    for (auto& o : mine) {
      ok(o);
      a.deallocate(o.p);
    }
  }
  void run(int in, int out)
  {
    auto& rm = umpire::ResourceManager::getInstance();
    Req q;
    while (full_read(in, &q, sizeof q)) {
      Rep r;
      memset((void*)&r, 0, sizeof r);
      r.ok = 1;
      g_fired = false;
      try {
        switch (q.cmd) {
          case ATTACH: {
            umpire::MemoryResourceTraits t{umpire::get_default_resource_traits("SHARED")};
            t.size = q.n;
            t.scope = umpire::MemoryResourceTraits::shared_scope::node;
            g_fault = q.handle; // failure to inject
            a = rm.makeResource(res, t);
            g_fault = 0;
            find_base();
            r.size = seg;
            break;
          }
          case SHIM:
            if (!shim.getAllocationStrategy()) shim = rm.makeAllocator<st::NamingShim>("shim", a);
            [[fallthrough]];
          case ALLOC: {
            char* p = static_cast<char*>(q.cmd == SHIM ? shim.allocate(q.n) : a.allocate(std::string(q.name), q.n));
            if (!p) {
              r.ok = 2;
              break;
            }
            h[q.handle] = p;
            r.known = base != nullptr && q.n != 0;
            r.off = p - base;
            r.off2 = (std::size_t)p;
            r.size = rm.getSize(p);
            break;
          }
          case FREE:
            if (q.n) rm.deallocate(h[q.handle]);
            else a.deallocate(h[q.handle]);
            h.erase(q.handle);
            break;
          case FIND: {
            char* p = static_cast<char*>(umpire::find_pointer_from_name(a, q.name));
            if (!p) r.ok = 2;
            else {
              r.known = base != nullptr;
              r.off = p - base;
            }
            break;
          }
          case WRITE: {
            char* p = h[q.handle];
            spots(q.n, [&](std::size_t i) { p[i] = (char)pat(q.tag, i); });
            break;
          }
          case CHECK: {
            char* p = h[q.handle];
            spots(q.n, [&](std::size_t i) {
              PCHECK(c, (unsigned char)p[i] == pat(q.tag, i), "data", "byte %zu of the %zu bytes of \"%s\" changed", i, q.n, q.name);
            });
            break;
          }
          case ACTUAL:
            r.size = a.getActualSize();
            r.current = a.getCurrentSize();
            r.count = a.getAllocationCount();
            r.high = a.getHighWatermark();
            break;
          case PLAIN: {
            void* p = a.allocate(q.n);
            (void)p;
            break;
          }
          case WRONG: {
            void* p = umpire::find_pointer_from_name(rm.getAllocator("HOST"), q.name);
            if (!p) r.ok = 2;
            break;
          }
          case STORM: storm(q.tag, q.n); break;
          case QUIT: exit(0);
        }
      } catch (umpire::runtime_error& e) {
        r.ok = 0;
        snprintf(r.what, sizeof r.what, "%s", e.message().c_str());
      }
      g_fault = 0;
      full_write(out, &r, sizeof r);
    }
    _exit(97); // the coordinator ended first
  }
};

struct Peer {
  pid_t pid{0};
  int to{-1}, from{-1};
  bool gone{false};
};

struct Team {
  Ctx& c;
  std::vector<Peer> w;
  std::string res;
  explicit Team(Ctx& cc, unsigned n) : c(cc)
  {
    static unsigned serial = 0;
    std::string tmp = c.scratch();
    std::string id;
    for (char ch : tmp)
      if (isalnum((unsigned char)ch)) id += ch;
    if (id.size() > 60) id = id.substr(id.size() - 60);
    res = "SHARED::uv" + id + "x" + std::to_string(getpid()) + "x" + std::to_string(serial++);
    fflush(nullptr);
    for (unsigned i = 0; i < n; ++i) {
      int a[2], b[2];
      if (pipe(a) || pipe(b)) _exit(96);
      Peer p;
      p.pid = fork();
      if (p.pid == 0) {
        for (auto& x : w) {
          close(x.to);
          close(x.from);
        }
        close(a[1]);
        close(b[0]);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Worker k{c, res};
        k.run(a[0], b[1]);
      }
      close(a[0]);
      close(b[1]);
      p.to = a[1];
      p.from = b[0];
      w.push_back(p);
    }
  }
  bool segment() const
  {
    struct ::stat sb;
    return ::stat(("/dev/shm/" + res).c_str(), &sb) == 0;
  }
  void wipe() { shm_unlink(("/" + res).c_str()); }
  [[noreturn]] void died(Peer& p)
  {
    int stt = 0;
    waitpid(p.pid, &stt, 0);
    wipe();
    for (auto& x : w)
      if (x.pid != p.pid && !x.gone) kill(x.pid, SIGKILL);
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 33) _exit(33);
    if (WIFEXITED(stt) && WEXITSTATUS(stt)) _exit(WEXITSTATUS(stt));
    if (WIFSIGNALED(stt)) {
      signal(WTERMSIG(stt), SIG_DFL);
      raise(WTERMSIG(stt));
    }
    _exit(95);
  }
  void send(unsigned i, const Req& q)
  {
    if (write(w[i].to, &q, sizeof q) != (ssize_t)sizeof q) died(w[i]);
  }
  Rep recv(unsigned i)
  {
    Rep r;
    if (!full_read(w[i].from, &r, sizeof r)) died(w[i]);
    return r;
  }
  Rep ask(unsigned i, int cmd, int handle = 0, std::size_t n = 0, std::uint64_t tag = 0, const std::string& name = "")
  {
    Req q;
    memset((void*)&q, 0, sizeof q);
    q.cmd = cmd;
    q.handle = handle;
    q.n = n;
    q.tag = tag;
    snprintf(q.name, sizeof q.name, "%s", name.c_str());
    send(i, q);
    return recv(i);
  }
  void quit(unsigned i)
  {
    Req q;
    memset((void*)&q, 0, sizeof q);
    q.cmd = QUIT;
    send(i, q);
    int stt = 0;
    while (waitpid(w[i].pid, &stt, 0) < 0 && errno == EINTR) {
    }
    w[i].gone = true;
    close(w[i].to);
    close(w[i].from);
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) return;
    wipe();
    for (auto& x : w)
      if (!x.gone) kill(x.pid, SIGKILL);
    if (WIFEXITED(stt)) _exit(WEXITSTATUS(stt));
    signal(WTERMSIG(stt), SIG_DFL);
    raise(WTERMSIG(stt));
    _exit(95);
  }
};

#define TCHECK(cond, kind, ...)                                \
  do {                                                         \
    if (!(cond)) {                                             \
      team.wipe();                                             \
      for (auto& x : team.w)                                   \
        if (!x.gone) kill(x.pid, SIGKILL);                     \
      c.fail(kind, __VA_ARGS__);                               \
    }                                                          \
  } while (0)

std::vector<std::string> shm_names(Ctx& c)
{
  std::string lng(c.range(30, c.chance(1, 4) ? 1500 : 200), 'n');
  return {"a", "b", "ab", "alpha", "alphabet", "A", "", std::string(15, 'q'), std::string(16, 'q'), std::string(17, 'q'), lng, lng + "1", lng + "2", "1" + lng};
}

struct Block {
  std::size_t off, size; // size of the first request
  std::uint64_t tag;
  std::vector<int> refs; // handles
};
struct Ref {
  std::string name;
  unsigned proc;
  std::size_t size;
};

void shm_team(Ctx& c, std::size_t seg)
{
  unsigned np = 1 + (unsigned)c.below(3);
  Team team(c, np);
  // attach; the first one sets the size
  bool together = np > 1 && c.chance(1, 2);
  if (together) {
    Req q;
    memset((void*)&q, 0, sizeof q);
    q.cmd = ATTACH;
    q.n = seg;
    for (unsigned i = 0; i < np; ++i) team.send(i, q);
    for (unsigned i = 0; i < np; ++i) {
      Rep r = team.recv(i);
      TCHECK(r.ok == 1, "attach", "attaching failed: %s", r.what);
    }
  } else {
    for (unsigned i = 0; i < np; ++i) {
      Rep r = team.ask(i, ATTACH, 0, i && c.chance(1, 3) ? 64 + seg / 2 : seg);
      TCHECK(r.ok == 1, "attach", "attaching failed: %s", r.what);
    }
  }
  std::vector<std::string> names = shm_names(c);
  std::map<std::string, Block> blocks;
  std::map<int, Ref> refs;
  std::map<int, unsigned> zero; // handles of zero-byte allocations
  std::vector<std::size_t> cur(np, 0), cnt(np, 0), hi(np, 0);
  std::vector<unsigned> shims(np, 0);
  std::vector<bool> shimmed(np, false);
  int next = 1;
  std::uint64_t tag = 1;
  std::size_t base = team.ask(0, ACTUAL).size;
  unsigned shared_hits = 0, frees = 0, oom = 0;
  bool exact = true; // offsets are known

  auto audit = [&](const char* after) {
    std::size_t need = 0;
    for (auto& b : blocks) need += b.second.size;
    for (unsigned i = 0; i < np; ++i) {
      if (team.w[i].gone) continue;
      Rep r = team.ask(i, ACTUAL);
      if (blocks.empty())
        TCHECK(r.size == base, "actual-size", "after %s nothing is allocated, but the actual size is %zu; it was %zu at the start", after, r.size, base);
      TCHECK(r.size >= base + need && r.size <= seg, "actual-size", "after %s %zu bytes are allocated in a segment of %zu and the actual size is %zu", after, need, seg, r.size);
      if (!shimmed[i])
        TCHECK(r.current == cur[i] && r.count == cnt[i] && r.high == hi[i], "shm-stats",
               "after %s process %u reports %zu bytes in %zu allocations, watermark %zu; it holds %zu in %zu, watermark %zu", after, i, r.current, r.count, r.high, cur[i], cnt[i], hi[i]);
    }
  };
  auto verify = [&](const std::string& nm) { // every process that holds it sees the data
    Block& b = blocks[nm];
    for (int hd : b.refs)
      if (!team.w[refs[hd].proc].gone) {
        Rep r = team.ask(refs[hd].proc, CHECK, hd, b.size, b.tag, nm);
        TCHECK(r.ok == 1, "data", "checking failed");
      }
  };
  auto room = [&](std::size_t n, std::size_t len) { // is there a hole that must be big enough?
    if (n > seg) return false;
    std::vector<std::pair<std::size_t, std::size_t>> u;
    for (auto& b : blocks) u.push_back({b.second.off > 96 ? b.second.off - 96 : 0, b.second.off + b.second.size + b.first.size() + 160});
    std::sort(u.begin(), u.end());
    std::size_t at = base + 16, need = n + len + 160;
    for (auto& x : u) {
      if (x.first > at && x.first - at >= need) return true;
      at = std::max(at, x.second);
    }
    return seg > at && seg - at >= need;
  };
  auto alloc = [&](unsigned i, bool viashim, const std::string& nm0, std::size_t n) {
    int hd = next++;
    std::string nm = nm0;
    c.trace("process %u: allocate %zu named \"%s\"%s", i, n, nm.c_str(), viashim ? " (shim)" : "");
    Rep r = team.ask(i, viashim ? SHIM : ALLOC, hd, n, 0, nm);
    if (n == 0) {
      TCHECK(r.ok == 1, "zero", "a zero-byte allocation was refused: %s", r.what);
      zero[hd] = i;
      ++cnt[i];
      return;
    }
    TCHECK(r.ok != 2, "null", "allocate returned null");
    auto it = blocks.find(nm);
    if (it != blocks.end() && n > it->second.size && (r.ok == 0 || n > it->second.size + 64)) {
      // the live block is fixed: a request for more than it holds cannot be served (what rounding left over may be)
      ++oom;
      TCHECK(r.ok == 0, "named-too-small", "process %u asked for %zu bytes named \"%s\" and was given the live block of %zu bytes", i, n, nm.c_str(), it->second.size);
      c.trace("  refused");
      audit("a refused allocation");
      verify(nm);
      return;
    }
    if (it != blocks.end()) {
      TCHECK(r.ok == 1, "named-refused", "process %u could not attach to the live allocation \"%s\": %s", i, nm.c_str(), r.what);
      if (r.known)
        TCHECK(r.off == it->second.off, "named-differs", "process %u got offset %zu for \"%s\", which lives at %zu", i, r.off, nm.c_str(), it->second.off);
      if (r.known)
        for (auto& b : blocks)
          TCHECK(b.first == nm || r.off + n <= b.second.off || b.second.off + b.second.size <= r.off, "overlap", "\"%s\" [%zu,%zu) overlaps \"%s\" [%zu,%zu)",
                 nm.c_str(), r.off, r.off + n, b.first.c_str(), b.second.off, b.second.off + b.second.size);
      ++shared_hits;
    } else if (r.ok == 0) {
      ++oom;
      if (exact)
        TCHECK(!room(n, nm.size()), "oom-with-room", "%zu bytes were refused although a hole in the segment of %zu bytes is big enough", n, seg);
      c.trace("  refused");
      audit("a refused allocation");
      return;
    } else {
      exact = exact && r.known;
      TCHECK(r.off2 % 16 == 0, "shm-alignment", "an allocation is at %zx", r.off2);
      if (r.known) {
        TCHECK(r.off >= base && r.off + n <= seg, "outside", "%zu bytes at offset %zu are not inside the segment of %zu bytes", n, r.off, seg);
        for (auto& b : blocks)
          TCHECK(r.off + n <= b.second.off || b.second.off + b.second.size <= r.off, "overlap", "\"%s\" [%zu,%zu) overlaps \"%s\" [%zu,%zu)", nm.c_str(), r.off,
                 r.off + n, b.first.c_str(), b.second.off, b.second.off + b.second.size);
      }
      Block b{r.off, n, 0, {}};
      it = blocks.insert({nm, b}).first;
      it->second.tag = ++tag;
      team.ask(i, WRITE, hd, n, it->second.tag, nm);
    }
    TCHECK(r.size == n, "record-size", "the record of \"%s\" says %zu bytes; %zu were requested", nm.c_str(), r.size, n);
    it->second.refs.push_back(hd);
    refs[hd] = {nm, i, n};
    cur[i] += n;
    ++cnt[i];
    hi[i] = std::max(hi[i], cur[i]);
    verify(nm);
  };
  auto drop = [&](int hd, bool viarm) {
    Ref rf = refs[hd];
    c.trace("process %u: free \"%s\"", rf.proc, rf.name.c_str());
    verify(rf.name);
    Rep r = team.ask(rf.proc, FREE, hd, viarm || shimmed[rf.proc]);
    TCHECK(r.ok == 1, "free-refused", "deallocate of \"%s\" failed: %s", rf.name.c_str(), r.what);
    Block& b = blocks[rf.name];
    b.refs.erase(std::find(b.refs.begin(), b.refs.end(), hd));
    refs.erase(hd);
    // two references in one process have one address: the record on top is the one that goes
    cur[rf.proc] -= rf.size;
    --cnt[rf.proc];
    if (b.refs.empty()) blocks.erase(rf.name);
    else verify(rf.name);
    ++frees;
  };

  while (c.more(60)) {
    c.step();
    unsigned i = (unsigned)c.below(np);
    if (team.w[i].gone) continue;
    switch (c.weighted({10, 7, 2, 2, 1, 1, 1, 1})) {
      case 0: {
        std::string nm = c.pick(names);
        std::size_t n = c.chance(1, 20) ? 0 : c.chance(seg > (1u << 30) ? 2 : 1, 4) ? c.range(1, seg > (1u << 30) && c.chance(2, 3) ? seg / 4 : seg) : c.size(600);
        if (c.chance(1, 24)) n = SIZE_MAX - c.below(400);
        auto it = blocks.find(nm);
        if (it != blocks.end() && c.chance(2, 3)) n = n ? 1 + n % it->second.size : 0; // mostly sizes the live block can serve
        if (it != blocks.end()) { // all requests of one process for one name use one size, so the order of frees does not matter
          for (int hd : it->second.refs)
            if (refs[hd].proc == i) n = refs[hd].size;
        }
        alloc(i, false, nm, n);
        break;
      }
      case 1: {
        std::vector<int> v;
        for (auto& r : refs)
          if (!team.w[r.second.proc].gone) v.push_back(r.first);
        if (v.empty()) break;
        drop(v[c.below(v.size())], c.chance(1, 2));
        break;
      }
      case 2: { // look a name up
        std::string nm = c.pick(names);
        Rep r = team.ask(i, FIND, 0, 0, 0, nm);
        auto it = blocks.find(nm);
        c.trace("process %u: find \"%s\"", i, nm.c_str());
        if (it == blocks.end())
          TCHECK(r.ok != 1, "find-phantom", "find_pointer_from_name found \"%s\", which is not allocated", nm.c_str());
        else {
          TCHECK(r.ok == 1, "find-missing", "find_pointer_from_name did not find \"%s\"", nm.c_str());
          if (r.known) TCHECK(r.off == it->second.off, "find-wrong", "find_pointer_from_name(\"%s\") gave offset %zu, not %zu", nm.c_str(), r.off, it->second.off);
        }
        break;
      }
      case 3: { // one process writes, all see it
        if (refs.empty()) break;
        auto it = refs.begin();
        std::advance(it, c.below(refs.size()));
        if (team.w[it->second.proc].gone) break;
        Block& b = blocks[it->second.name];
        b.tag = ++tag;
        c.trace("process %u: write \"%s\"", it->second.proc, it->second.name.c_str());
        team.ask(it->second.proc, WRITE, it->first, b.size, b.tag, it->second.name);
        verify(it->second.name);
        break;
      }
      case 4: {
        Rep r = team.ask(i, PLAIN, 0, c.size(100));
        TCHECK(r.ok == 0, "unnamed", "an allocation without a name was accepted");
        break;
      }
      case 5: {
        Rep r = team.ask(i, WRONG, 0, 0, 0, "a");
        TCHECK(r.ok == 0, "not-shared", "find_pointer_from_name accepted an allocator that is not a shared memory allocator");
        break;
      }
      case 6:
        shimmed[i] = true;
        alloc(i, true, "\x01shim" + std::to_string(shims[i]++), c.size(300));
        break;
      default:
        if (np > 1 && c.chance(1, 3)) {
          unsigned alive = 0;
          for (auto& x : team.w) alive += !x.gone;
          if (alive < 2) break;
          c.trace("process %u ends", i);
          team.quit(i);
          c.label("process-ended");
        }
        break;
    }
    audit("an operation");
  }
  for (auto& b : blocks) verify(b.first);
  std::vector<int> v;
  for (auto& r : refs)
    if (!team.w[r.second.proc].gone) v.push_back(r.first);
  while (!v.empty()) {
    std::size_t k = c.below(v.size());
    drop(v[k], true);
    v.erase(v.begin() + k);
  }
  audit("everything was freed");
  if (blocks.empty() && seg > 700) { // all free memory is one piece again
    for (unsigned i = 0; i < np; ++i) {
      if (team.w[i].gone || shimmed[i]) continue;
      std::size_t n = seg - base - 240;
      Rep r = team.ask(i, ALLOC, next, n, 0, "all");
      TCHECK(r.ok == 1, "fragmented", "everything was freed, but %zu of the segment's %zu bytes cannot be allocated in one piece", n, seg);
      team.ask(i, FREE, next, 1);
      break;
    }
  }
  for (auto& z : zero)
    if (!team.w[z.second].gone) team.ask(z.second, FREE, z.first, 1);
  for (unsigned i = 0; i < np; ++i)
    if (!team.w[i].gone) team.quit(i);
  TCHECK(!team.segment(), "segment-left", "the shared memory segment is still there after all processes ended");
  if (np > 1) c.label("several-processes");
  if (shared_hits) c.label("shared-name");
  if (oom) c.label("out-of-memory");
  if (shared_hits && frees > 2) c.nontrivial();
}

void shm_peers(Ctx& c) { shm_team(c, c.chance(1, 2) ? 4096 : c.range(600, 20000)); }

void shm_large(Ctx& c) // more than 32 bits address (sparse: only a few pages are touched)
{
  std::size_t seg = ((std::size_t)c.range(3, 24) << 29) + c.below(5000);
  std::string nm = "/uvprobe" + std::to_string(getpid());
  int fd = shm_open(nm.c_str(), O_RDWR | O_CREAT, 0600);
  bool ok = fd >= 0 && __real_ftruncate(fd, (off_t)seg) == 0;
  if (ok) {
    void* p = __real_mmap(nullptr, seg, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    ok = p != MAP_FAILED;
    if (ok) munmap(p, seg);
  }
  if (fd >= 0) {
    close(fd);
    shm_unlink(nm.c_str());
  }
  if (!ok) seg = 65536;
  shm_team(c, seg);
}

void shm_storm(Ctx& c)
{
  unsigned np = 2 + (unsigned)c.below(3);
  Team team(c, np);
  std::size_t seg = c.range(2000, 12000);
  Req q;
  memset((void*)&q, 0, sizeof q);
  q.cmd = ATTACH;
  q.n = seg;
  for (unsigned i = 0; i < np; ++i) team.send(i, q);
  for (unsigned i = 0; i < np; ++i) {
    Rep r = team.recv(i);
    TCHECK(r.ok == 1, "attach", "attaching failed: %s", r.what);
  }
  std::size_t base = team.ask(0, ACTUAL).size;
  unsigned rounds = 1 + (unsigned)c.below(3);
  for (unsigned k = 0; k < rounds; ++k) {
    c.span();
    c.step();
    q.cmd = STORM;
    std::size_t n = c.range(20, 400);
    std::uint64_t seed = c.seed_draw();
    c.trace("%u processes allocate and free concurrently, %zu operations each", np, n);
    for (unsigned i = 0; i < np; ++i) {
      q.n = n;
      q.tag = seed + i * 7919;
      team.send(i, q);
    }
    for (unsigned i = 0; i < np; ++i) team.recv(i);
    for (unsigned i = 0; i < np; ++i) {
      Rep r = team.ask(i, ACTUAL);
      TCHECK(r.size == base, "actual-size", "everything was freed, but the actual size is %zu; it was %zu", r.size, base);
      TCHECK(r.current == 0 && r.count == 0, "shm-stats", "everything was freed, but process %u reports %zu bytes", i, r.current);
    }
    Rep r = team.ask(k % np, ALLOC, 1, seg - base - 240, 0, "all");
    TCHECK(r.ok == 1, "fragmented", "everything was freed, but %zu of the segment's %zu bytes cannot be allocated in one piece", seg - base - 240, seg);
    team.ask(k % np, FREE, 1, 1);
  }
  for (unsigned i = 0; i < np; ++i) team.quit(i);
  TCHECK(!team.segment(), "segment-left", "the shared memory segment is still there after all processes ended");
  c.nontrivial();
}

// a segment that cannot be set up: refused, and nothing is left behind
void shm_setup(Ctx& c)
{
  Team team(c, 2);
  std::size_t seg = c.chance(1, 2) ? c.below(300) : c.range(300, 5000);
  int fault = c.chance(1, 2) ? 2 + (int)c.below(2) : 0;
  c.trace("make a segment of %zu bytes with failure %d", seg, fault);
  Rep r = team.ask(0, ATTACH, fault, seg);
  bool made = r.ok == 1;
  if (!made) {
    TCHECK(seg < 512 || fault, "attach", "attaching failed: %s", r.what);
    TCHECK(!team.segment(), "segment-left", "a segment that could not be set up is left in /dev/shm");
    c.label("refused");
    c.nontrivial();
  } else {
    std::size_t base = team.ask(0, ACTUAL).size;
    while (c.more(8)) {
      std::size_t n = c.size(200);
      Rep a = team.ask(0, ALLOC, 1, n, 0, "x");
      TCHECK(a.ok != 2, "null", "allocate returned null");
      if (a.ok == 1) {
        if (a.known) TCHECK(a.off >= base && a.off + n <= seg, "outside", "%zu bytes at offset %zu are not inside the segment of %zu bytes", n, a.off, seg);
        team.ask(0, WRITE, 1, n, 5);
        team.ask(0, FREE, 1, 1);
      }
      TCHECK(team.ask(0, ACTUAL).size == base, "actual-size", "the actual size changed");
      c.nontrivial();
    }
  }
  // the other process is not affected
  Rep s = team.ask(1, ATTACH, 0, made ? seg : 4096);
  TCHECK(s.ok == 1, "attach-later", "a second process could not attach: %s", s.what);
  if (!made) {
    Rep a = team.ask(1, ALLOC, 1, 2000, 0, "x");
    TCHECK(a.ok == 1, "later-oom", "2000 bytes of 4096 were refused");
    team.ask(1, WRITE, 1, 2000, 5);
    team.ask(1, FREE, 1, 1);
  }
  for (unsigned i = 0; i < 2; ++i) team.quit(i);
  TCHECK(!team.segment(), "segment-left", "the shared memory segment is still there after all processes ended");
}

} // namespace

int main(int argc, char** argv)
{
  Settings s;
  std::string suite = arg(argc, argv, "--suite");
  if (suite == "shm") {
    s.wall_s = 30;
    return run_main(argc, argv,
                    {{"peers", 8, 1, shm_peers, "a name was allocated again while live and more than two allocations were freed"},
                     {"large", 1, 1, shm_large, "as in peers, in a segment of up to 12 GB"},
                     {"storm", 2, 1, shm_storm, "every case: two to four processes at once"},
                     {"setup", 2, 1, shm_setup, "the segment was refused or used"}},
                    s);
  }
  return run_main(argc, argv, {{"file", 1, 1, file_case, "a failure was injected and an allocation was freed"}}, s);
}
