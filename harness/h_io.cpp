// C24: output buffer, logger and file-name helpers.
#include "pbt.hpp"

#include <algorithm>
#include <map>
#include <memory>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/util/Logger.hpp"
#include "umpire/util/Macros.hpp"
#include "umpire/util/OutputBuffer.hpp"
#include "umpire/util/io.hpp"

using namespace pbt;

namespace {

// a sink that refuses bytes after a while, or refuses to sync
struct Sink : std::streambuf {
  std::string got;
  std::size_t room{~std::size_t{0}};
  bool sync_fails{false};
  unsigned syncs{0};
  int overflow(int ch) override
  {
    if (ch == EOF) return 0;
    if (got.size() >= room) return EOF;
    got.push_back(static_cast<char>(ch));
    return static_cast<unsigned char>(ch);
  }
  int sync() override
  {
    ++syncs;
    return sync_fails ? -1 : 0;
  }
};

std::string bytes(Ctx& c, std::size_t max)
{
  std::string s;
  std::size_t n = c.below(max);
  for (std::size_t i = 0; i < n; ++i) {
    switch (c.below(4)) {
      case 0: s.push_back("\n\0\xff\xfe"[c.below(4)]); break;
      case 1: s.push_back(static_cast<char>(c.below(256))); break;
      default: s.push_back(static_cast<char>('a' + c.below(26))); break;
    }
  }
  return s;
}

void buffer(Ctx& c)
{
  Sink sinks[3];
  std::ostream streams[3] = {std::ostream(&sinks[0]), std::ostream(&sinks[1]), std::ostream(&sinks[2])};
  std::string want[3];
  for (auto& s : sinks) {
    if (c.chance(1, 4)) s.room = c.below(60);
    s.sync_fails = c.chance(1, 5);
  }
  int con = -1, file = -1;
  alignas(umpire::util::OutputBuffer) unsigned char raw[sizeof(umpire::util::OutputBuffer)];
  memset(raw, c.chance(1, 2) ? 0xa5 : 0, sizeof raw);
  auto* b = new (raw) umpire::util::OutputBuffer;
  bool both = false, refused = false, wrote = false;

  // every attached sink is offered each byte; the first byte any of them refuses ends the write
  auto model = [&](unsigned char ch) {
    bool ok = true;
    if (con >= 0) {
      if (want[con].size() >= sinks[con].room) ok = false;
      else want[con].push_back(static_cast<char>(ch));
    }
    if (file >= 0) {
      if (want[file].size() >= sinks[file].room) ok = false;
      else want[file].push_back(static_cast<char>(ch));
    }
    wrote = wrote || con >= 0 || file >= 0;
    both = both || (con >= 0 && file >= 0);
    refused = refused || !ok;
    return ok;
  };
  auto verify = [&](const char* what) {
    for (int i = 0; i < 3; ++i)
      PCHECK(c, sinks[i].got == want[i], "sink-bytes", "%s: sink %d holds %zu bytes, %zu were expected (first difference at %zu)", what, i, sinks[i].got.size(),
             want[i].size(), (std::size_t)(std::mismatch(want[i].begin(), want[i].begin() + std::min(want[i].size(), sinks[i].got.size()), sinks[i].got.begin()).first - want[i].begin()));
  };
  while (c.more(40)) {
    c.step();
    switch (c.weighted({4, 4, 3, 3, 2, 1})) {
      case 0: { // one byte
        unsigned char ch = c.chance(1, 4) ? 0xff : static_cast<unsigned char>(c.below(256));
        c.trace("put %02x to console %d file %d", ch, con, file);
        bool ok = model(ch);
        int r = b->sputc(static_cast<char>(ch));
        PCHECK(c, (r != EOF) == ok, "put-result", "writing byte %02x returned %d although the sinks %s it", ch, r, ok ? "took" : "refused");
        if (ok) PCHECK(c, r == ch, "put-value", "writing byte %02x returned %d", ch, r);
        break;
      }
      case 1: { // a run of bytes
        std::string s = bytes(c, 24);
        if (c.chance(1, 16))
          for (std::size_t k = 0, m = c.range(100, 20000); k < m; ++k) s.push_back(static_cast<char>(mix(k) >> 7));
        c.trace("write %zu bytes", s.size());
        std::size_t n = 0;
        for (unsigned char ch : s) {
          if (!model(ch)) break;
          ++n;
        }
        std::size_t r = static_cast<std::size_t>(b->sputn(s.data(), static_cast<std::streamsize>(s.size())));
        PCHECK(c, r == n, "write-count", "writing %zu bytes reported %zu, the sinks took %zu", s.size(), r, n);
        break;
      }
      case 2: { // a stream on top
        std::string s = bytes(c, 12);
        c.trace("stream %zu bytes and flush", s.size());
        std::ostream os(b);
        bool ok = true;
        for (unsigned char ch : s)
          if (!model(ch)) { ok = false; break; }
        os.write(s.data(), static_cast<std::streamsize>(s.size()));
        PCHECK(c, os.good() == ok, "stream-state", "the stream is %s although the sinks %s the text", os.good() ? "good" : "bad", ok ? "took" : "refused");
        break;
      }
      case 3: { // attach or detach
        int which = static_cast<int>(c.below(4)) - 1;
        if (c.chance(1, 2)) {
          con = which;
          b->setConsoleStream(which < 0 ? nullptr : &streams[which]);
          c.trace("console -> %d", which);
        } else {
          file = which;
          b->setFileStream(which < 0 ? nullptr : &streams[which]);
          c.trace("file -> %d", which);
        }
        break;
      }
      case 4: { // sync
        unsigned before[3], add[3] = {0, 0, 0};
        for (int i = 0; i < 3; ++i) before[i] = sinks[i].syncs;
        bool ok = true;
        if (con >= 0) { ++add[con]; ok = ok && !sinks[con].sync_fails; }
        if (file >= 0) { ++add[file]; ok = ok && !sinks[file].sync_fails; }
        c.trace("sync console %d file %d", con, file);
        int r = b->pubsync();
        PCHECK(c, r == (ok ? 0 : -1), "sync-result", "sync returned %d", r);
        for (int i = 0; i < 3; ++i)
          PCHECK(c, sinks[i].syncs == before[i] + add[i], "sync-missed", "sink %d was synced %u times instead of %u", i, sinks[i].syncs - before[i], add[i]);
        break;
      }
      default: {
        c.trace("overflow(EOF)");
        int r = b->overflow(EOF);
        PCHECK(c, r != EOF, "overflow-eof", "overflow(EOF) reported failure");
        break;
      }
    }
    verify("after the operation");
  }
  unsigned before[3];
  for (int i = 0; i < 3; ++i) before[i] = sinks[i].syncs;
  b->~OutputBuffer();
  for (int i = 0; i < 3; ++i)
    PCHECK(c, (sinks[i].syncs > before[i]) == (i == con || i == file), "destroy-sync", "sink %d %s synced when the buffer was destroyed", i, sinks[i].syncs > before[i] ? "was" : "was not");
  verify("at the end");
  if (wrote && (both || refused)) c.nontrivial();
}

void filenames(Ctx& c)
{
  std::string dir = c.scratch() + "/n" + std::to_string(c.below(1000000));
  mkdir(dir.c_str(), 0755);
  std::vector<std::string> made;
  auto touch = [&](const std::string& p, bool content) {
    std::ofstream f(p);
    if (content) f << "x";
    made.push_back(p);
  };
  bool collided = false;
  while (c.more(16)) {
    c.step();
    std::string name = c.pick(std::vector<std::string>{"umpire", "u", "a.b", "with space", "0", "x.1.0"});
    std::string ext = c.pick(std::vector<std::string>{"log", "error", "stats", "l"});
    int pid = c.chance(1, 2) ? static_cast<int>(c.below(20)) : static_cast<int>(c.below(100000));
    auto path = [&](unsigned id) { return dir + "/" + name + "." + std::to_string(pid) + "." + std::to_string(id) + "." + ext; };
    std::set<unsigned> have;
    unsigned pre = static_cast<unsigned>(c.below(6));
    for (unsigned i = 0; i < pre; ++i) {
      unsigned id = c.chance(1, 2) ? i : static_cast<unsigned>(c.below(14));
      touch(path(id), c.chance(1, 2));
    }
    if (c.chance(1, 10))
      for (unsigned i = 0, m = static_cast<unsigned>(c.range(20, 300)); i < m; ++i) touch(path(i), false);
    // a free number, and no gap is skipped
    unsigned want = 0;
    struct stat sb;
    while (stat(path(want).c_str(), &sb) == 0) ++want;
    std::string got = umpire::util::make_unique_filename(dir, name, pid, ext);
    c.trace("unique name for %s pid %d .%s: id %u", name.c_str(), pid, ext.c_str(), want);
    PCHECK(c, stat(got.c_str(), &sb) != 0, "name-taken", "make_unique_filename returned %s, which exists", got.c_str());
    std::string head = dir + "/" + name + "." + std::to_string(pid) + ".", tail = "." + ext;
    bool shape = got.size() > head.size() + tail.size() && got.compare(0, head.size(), head) == 0 && got.compare(got.size() - tail.size(), tail.size(), tail) == 0 &&
                 got.find_first_not_of("0123456789", head.size()) == got.size() - tail.size();
    PCHECK(c, shape, "name-shape", "make_unique_filename(%s, %s, %d, %s) returned %s", dir.c_str(), name.c_str(), pid, ext.c_str(), got.c_str());
    if (want) collided = true;
    if (c.chance(1, 3)) touch(got, false);
    // what exists
    for (auto& m : made) PCHECK(c, umpire::util::file_exists(m), "file-exists", "file_exists is false for %s", m.c_str());
    PCHECK(c, !umpire::util::file_exists(dir + "/missing"), "file-phantom", "file_exists is true for a missing file");
    PCHECK(c, !umpire::util::file_exists(dir + "/missing/child"), "file-phantom", "file_exists is true for a file in a missing directory");
    PCHECK(c, umpire::util::directory_exists(dir) && umpire::util::directory_exists(dir + "/"), "dir-exists", "directory_exists is false for %s", dir.c_str());
    PCHECK(c, !umpire::util::directory_exists(dir + "/missing"), "dir-phantom", "directory_exists is true for a missing directory");
    if (!made.empty()) PCHECK(c, !umpire::util::directory_exists(made[0]), "dir-file", "directory_exists is true for the file %s", made[0].c_str());
  }
  for (auto& m : made) unlink(m.c_str());
  rmdir(dir.c_str());
  if (collided) c.nontrivial();
}

std::string slurp(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

void logger(Ctx& c)
{
  using umpire::util::message::Level;
  static const char* names[] = {"ERROR", "WARNING", "INFO", "DEBUG"};
  std::string dir = c.scratch();
  // 0 unset, 1..4 a level in some spelling, 5 not a level
  unsigned mode = static_cast<unsigned>(c.below(6));
  int level = 2;
  std::string env;
  if (mode >= 1 && mode <= 4) {
    env = names[mode - 1];
    level = static_cast<int>(mode) - 1;
    for (auto& ch : env)
      if (c.chance(1, 2)) ch = static_cast<char>(tolower(ch));
  } else if (mode == 5)
    env = c.pick(std::vector<std::string>{"", "verbose", "ERRO", "ERRORS", "3", "INFO ", "debug1", "warn"});
  if (mode) setenv("UMPIRE_LOG_LEVEL", env.c_str(), 1);
  bool sub = c.chance(1, 4); // a directory that has to be created
  if (sub) dir += "/made/";
  bool init = sub || c.chance(1, 3);
  std::string base = c.pick(std::vector<std::string>{"umpire", "x", "run.1"});
  setenv("UMPIRE_OUTPUT_DIR", dir.c_str(), 1);
  if (base != "umpire") setenv("UMPIRE_OUTPUT_BASENAME", base.c_str(), 1);
  std::string path = dir + "/" + base + "." + std::to_string(getpid()) + ".0.log";
  std::string old;
  if (!sub && c.chance(1, 4)) { // somebody's file is in the way and must survive
    std::ofstream(path) << "precious";
    old = path;
    path = dir + "/" + base + "." + std::to_string(getpid()) + ".1.log";
    c.label("name-taken");
  }
  c.trace("UMPIRE_LOG_LEVEL %s%s", mode ? env.c_str() : "(unset)", sub ? ", new output directory" : "");
  if (init) umpire::initialize();
  auto& rm = umpire::ResourceManager::getInstance();
  auto* log = umpire::util::Logger::getActiveLogger();
  std::vector<std::string> want;
  unsigned wrote = 0, dropped = 0, errors = 0;
  while (c.more(30)) {
    c.step();
    switch (c.weighted({8, 2, 2, 2})) {
      case 0: {
        int lv = c.chance(1, 10) ? c.pick(std::vector<int>{4, 5, 6, 7}) : static_cast<int>(c.below(4));
        std::string msg, file = "verif" + std::to_string(c.below(100)) + c.pick(std::vector<std::string>{".cpp", "", "/a b", "%s"});
        for (unsigned n = static_cast<unsigned>(c.below(30)); n--;) msg.push_back("abc{}%d\\\"\t[]: "[c.below(15)]);
        if (c.chance(1, 12)) { // longer than any buffer
          std::size_t len = c.range(200, c.chance(1, 4) ? 200000 : 9000);
          while (msg.size() < len) msg += "<" + std::to_string(msg.size()) + ">";
          c.label("long");
        }
        int line = static_cast<int>(c.below(70000));
        log->logMessage(static_cast<Level>(lv), msg, file, line);
        bool on = lv >= 0 && lv <= 3 && lv <= level;
        c.trace("log level %d (enabled up to %d)", lv, level);
        PCHECK(c, log->logLevelEnabled(static_cast<Level>(lv)) == on, "level-enabled", "logLevelEnabled(%d) is %d, the level is %d", lv, !on, level);
        if (on) {
          want.push_back(std::string("[") + names[lv] + "][" + file + ":" + std::to_string(line) + "]:" + msg);
          ++wrote;
        } else
          ++dropped;
        break;
      }
      case 1: {
        level = static_cast<int>(c.below(4));
        c.trace("set level %d", level);
        log->setLoggingMsgLevel(static_cast<Level>(level));
        break;
      }
      case 2: { // an error is in the log when the exception arrives
        std::string nm = "nosuch" + std::to_string(c.below(100000));
        std::string what;
        try {
          rm.getAllocator(nm);
        } catch (umpire::runtime_error& e) {
          what = e.what();
        }
        PCHECK(c, what.find(nm) != std::string::npos, "no-error", "looking up \"%s\" threw \"%s\"", nm.c_str(), what.c_str());
        c.trace("error about %s", nm.c_str());
        if (mode) {
          PCHECK(c, slurp(path).find(what) != std::string::npos, "error-unlogged", "the error about \"%s\" is not in the log file when it is thrown", nm.c_str());
          ++errors;
        }
        break;
      }
      default: { // the macro the library uses
        std::string token = "token" + std::to_string(c.below(1000000));
        UMPIRE_LOG(Warning, "(" << token << ")");
        if (level >= 1) {
          want.push_back("\x01" + token);
          ++wrote;
        }
        c.trace("macro at level 1 (enabled up to %d)", level);
        break;
      }
    }
  }
  umpire::util::flush_files();
  struct stat sb;
  if (!mode) {
    PCHECK(c, stat(path.c_str(), &sb) != 0, "log-unasked", "a log file was made although UMPIRE_LOG_LEVEL is not set");
    return;
  }
  PCHECK(c, stat(path.c_str(), &sb) == 0, "log-missing", "there is no log file %s", path.c_str());
  if (!old.empty()) PCHECK(c, slurp(old) == "precious", "clobbered", "the existing file %s was overwritten", old.c_str());
  // our lines, in order
  std::istringstream is(slurp(path));
  std::string line;
  std::size_t at = 0, ours = 0;
  while (std::getline(is, line)) {
    bool mine = false, tok = line.find("token") != std::string::npos && line.compare(0, 10, "[WARNING][") == 0;
    for (auto n : names) mine = mine || line.compare(0, strlen(n) + 8, std::string("[") + n + "][" + "verif") == 0;
    if (!mine && !tok) continue;
    ++ours;
    PCHECK(c, at < want.size(), "log-extra", "the log has more lines than were logged: %s", line.c_str());
    const std::string& w = want[at++];
    if (w[0] == '\x01') {
      std::string tail = w.substr(1);
      PCHECK(c, tok && line.find("(" + tail + ")") != std::string::npos, "log-line", "expected a line with %s, found: %s", tail.c_str(), line.c_str());
    } else
      PCHECK(c, line == w, "log-line", "expected: %s\nfound:    %s", w.c_str(), line.c_str());
  }
  PCHECK(c, at == want.size(), "log-lost", "%zu lines were logged, %zu are in the file", want.size(), ours);
  if (wrote && dropped) c.label("filtered");
  if (errors) c.label("errors");
  if (wrote && (dropped || errors)) c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
  Settings s;
  s.cpu_s = 10;
  return run_main(argc, argv,
                  {{"buffer", 4, 16, buffer, "bytes went to two sinks at once, or a sink refused bytes"},
                   {"filenames", 1, 4, filenames, "a candidate name was already taken"},
                   {"logger", 20, 1, logger, "a message was written, and another was filtered out or an error was logged"}},
                  s);
}
