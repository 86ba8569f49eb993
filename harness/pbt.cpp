#include "pbt.hpp"

#include <dlfcn.h>

#include <algorithm>
#include <chrono>
#include <map>

namespace pbt {
Shared* g_sh = nullptr;
std::uint32_t g_cov_total = 0;

namespace {

double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Failure {
  bool found{false};
  std::uint64_t index{0};
  unsigned stream{0};
  std::string kind, msg, trace;
  std::vector<std::uint64_t> tape;
  std::vector<std::uint32_t> span;
};

struct Outcome {
  bool fail{false};
  bool inconclusive{false};
  std::string kind, msg;
};

struct Options {
  std::uint64_t seed{1};
  std::uint64_t cases{1000};
  unsigned workers{8};
  double wall{60};
  double shrink_wall{40};
  std::string out, replay, tmp{"/tmp"};
  bool mutate{true};
  std::string only;
  unsigned confirm{3};
  unsigned tries{12}; // runs of the failing case in which `confirm` failures must be seen
};

void rm_rf(const std::string& p)
{
  // only ever called on directories this engine created under its own mkdtemp() directory
  DIR* d = opendir(p.c_str());
  if (d) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      std::string q = p + "/" + n;
      struct stat sb;
      if (lstat(q.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode))
        rm_rf(q);
      else
        unlink(q.c_str());
    }
    closedir(d);
  }
  rmdir(p.c_str());
}

std::string read_tail(const std::string& path, std::size_t n)
{
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (s.size() > n)
    s = s.substr(0, n);
  return s;
}

std::string sanitizer_kind(const std::string& err)
{
  auto p = err.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    auto q = p + strlen("ERROR: AddressSanitizer: ");
    auto e = err.find_first_of(" \n:", q);
    return "asan-" + err.substr(q, e - q);
  }
  if (err.find("WARNING: ThreadSanitizer: ") != std::string::npos) {
    auto q = err.find("WARNING: ThreadSanitizer: ") + strlen("WARNING: ThreadSanitizer: ");
    auto e = err.find_first_of("(\n", q);
    std::string k = err.substr(q, e - q);
    for (char& c : k)
      if (c == ' ') c = '-';
    while (!k.empty() && k.back() == '-') k.pop_back();
    return "tsan-" + k;
  }
  if (err.find("runtime error: ") != std::string::npos)
    return "ubsan";
  return "";
}

class Runner {
 public:
  Runner(const std::vector<Stream>& s, const Settings& st, const std::string& dir)
      : m_streams(s), m_st(st), m_dir(dir)
  {
    g_sh = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (g_sh == MAP_FAILED) {
      perror("mmap");
      _exit(3);
    }
    mkdir(m_dir.c_str(), 0755);
  }

  // Runs `count` cases with prefixes from `prefix_of(k)`.
  Outcome run(unsigned stream, unsigned count, const std::function<std::vector<std::uint64_t>(unsigned)>& prefix_of,
              bool extend, const std::function<std::uint64_t(unsigned)>& seed_of)
  {
    g_sh->status = 0;
    g_sh->batch_done = 0;
    g_sh->kind[0] = 0;
    g_sh->msg[0] = 0;
    std::string errf = m_dir + "/stderr";
    std::string scratch = m_dir + "/scratch";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) {
      Outcome o;
      o.inconclusive = true;
      return o;
    }
    if (pid == 0) {
      setpgid(0, 0);
      int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 2);
      int nul = open("/dev/null", O_RDWR);
      dup2(nul, 1);
      dup2(nul, 0);
      struct rlimit rl;
      rl.rlim_cur = m_st.cpu_s;
      rl.rlim_max = m_st.cpu_s + 5;
      setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      alarm(m_st.wall_s);
      bool handlers = false;
      for (unsigned k = 0; k < count; ++k) {
        std::vector<std::uint64_t> pre = prefix_of(k);
        Ctx c(pre, extend, seed_of(k), scratch);
        try {
          m_streams[stream].fn(c);
        } catch (const std::exception& e) {
          c.fail("unexpected-exception", "exception escaped the case: %s: %s", typeid(e).name(), e.what());
        } catch (...) {
          c.fail("unexpected-exception", "unknown exception escaped the case");
        }
        handlers = handlers || c.exit_handlers;
        CaseSummary& s = g_sh->sum[k];
        s.hash = c.m_hash;
        s.lab[0] = c.m_lab[0];
        s.lab[1] = c.m_lab[1];
        s.nontrivial = c.m_nontrivial;
        s.newcov = g_sh->newcov;
        s.steps = g_sh->steps;
        if (!handlers)
          g_sh->batch_done = k + 1;
      }
      if (handlers) {
        exit(0);
      }
      g_sh->status = 1;
      _exit(0);
    }
    int wst = 0;
    while (waitpid(pid, &wst, 0) < 0 && errno == EINTR) {
    }
    kill(-pid, SIGKILL); // processes a case may have left behind
    struct stat sb;
    if (stat(scratch.c_str(), &sb) == 0)
      rm_rf(scratch);
    Outcome o;
    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0 && g_sh->status != 2) {
      g_sh->batch_done = count;
      return o;
    }
    if (g_sh->status == 2) {
      o.fail = true;
      o.kind = g_sh->kind;
      o.msg = g_sh->msg;
      return o;
    }
    o.fail = true;
    std::string err = read_tail(errf, 5000);
    if (WIFSIGNALED(wst)) {
      int sg = WTERMSIG(wst);
      if (sg == SIGXCPU)
        o.kind = "hang-cpu";
      else if (sg == SIGALRM)
        o.kind = "hang-deadlock";
      else if (sg == SIGKILL) {
        o.fail = false; // memory pressure or an outside kill: says nothing about the property
        o.inconclusive = true;
      } else
        o.kind = "crash-signal-" + std::to_string(sg);
      o.msg = "child ended by signal " + std::to_string(sg) + "\n" + err;
      if (sg == SIGABRT && err.find("terminate called") != std::string::npos)
        o.kind = "terminate";
    } else {
      o.kind = sanitizer_kind(err);
      if (o.kind.empty())
        o.kind = "exit-" + std::to_string(WEXITSTATUS(wst));
      o.msg = "child exited with status " + std::to_string(WEXITSTATUS(wst)) + "\n" + err;
    }
    return o;
  }

  Outcome run_tape(unsigned stream, const std::vector<std::uint64_t>& tape)
  {
    return run(
        stream, 1, [&](unsigned) { return tape; }, false, [](unsigned) { return 0; });
  }

  const std::vector<Stream>& m_streams;
  const Settings& m_st;
  std::string m_dir;
};

std::vector<std::uint64_t> sh_tape()
{
  return std::vector<std::uint64_t>(g_sh->tape, g_sh->tape + g_sh->tape_len);
}
std::vector<std::uint32_t> sh_span()
{
  return std::vector<std::uint32_t>(g_sh->span, g_sh->span + g_sh->nspan);
}
std::string sh_trace()
{
  return std::string(g_sh->trace, g_sh->trace_len);
}

void mutate(std::vector<std::uint64_t>& t, const std::vector<std::uint32_t>& span,
            const std::vector<std::uint64_t>& other, Rng& r)
{
  unsigned n = 1 + r.below(4);
  for (unsigned k = 0; k < n && !t.empty(); ++k) {
    switch (r.below(6)) {
      case 0: t[r.below(t.size())] = r.next(); break;
      case 1: {
        auto& v = t[r.below(t.size())];
        v = v + r.below(7) - 3;
        if (v > (1ULL << 62)) v = 0;
        break;
      }
      case 2: t.resize(r.below(t.size()) + 1); break; // then the rest is fresh
      case 3: {                                         // duplicate an operation
        if (span.size() < 3) break;
        std::size_t i = r.below(span.size() - 1);
        if (span[i + 1] > t.size()) break;
        std::vector<std::uint64_t> seg(t.begin() + span[i], t.begin() + span[i + 1]);
        std::size_t j = span[r.below(span.size())];
        if (j > t.size()) break;
        t.insert(t.begin() + j, seg.begin(), seg.end());
        break;
      }
      case 4: { // delete an operation
        if (span.size() < 3) break;
        std::size_t i = r.below(span.size() - 1);
        if (span[i + 1] > t.size()) break;
        t.erase(t.begin() + span[i], t.begin() + span[i + 1]);
        break;
      }
      default: { // splice
        if (other.empty()) break;
        std::size_t a = r.below(t.size()), b = r.below(other.size());
        t.resize(a);
        t.insert(t.end(), other.begin() + b, other.end());
        break;
      }
    }
  }
  if (t.size() > MAXTAPE / 2)
    t.resize(MAXTAPE / 2);
}

std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}

std::string jtape(const std::vector<std::uint64_t>& t)
{
  std::string o = "[";
  for (std::size_t i = 0; i < t.size(); ++i)
    o += (i ? "," : "") + std::to_string(t[i]);
  return o + "]";
}

struct WorkerResult {
  std::uint64_t evaluations{0}, nontrivial{0}, inconclusive{0}, mutated{0}, steps{0}, unconfirmed{0};
  std::string unconfirmed_notes;
  std::vector<std::uint64_t> nt_hashes;
  std::map<std::string, std::uint64_t> labels;
  std::vector<std::uint64_t> per_stream;
  std::vector<std::string> samples;
  Failure f;
};

template <typename T>
void put(FILE* f, const T& v) { fwrite(&v, sizeof v, 1, f); }
template <typename T>
void get(FILE* f, T& v) { if (fread(&v, sizeof v, 1, f) != 1) memset(&v, 0, sizeof v); }
void puts_(FILE* f, const std::string& s)
{
  std::uint64_t n = s.size();
  put(f, n);
  fwrite(s.data(), 1, n, f);
}
std::string gets_(FILE* f)
{
  std::uint64_t n = 0;
  get(f, n);
  if (n > (1u << 26)) return "";
  std::string s(n, 0);
  if (n && fread(&s[0], 1, n, f) != n) s.clear();
  return s;
}

void save(const WorkerResult& r, const std::string& path)
{
  FILE* f = fopen(path.c_str(), "wb");
  put(f, r.evaluations); put(f, r.nontrivial); put(f, r.inconclusive); put(f, r.mutated); put(f, r.steps); put(f, r.unconfirmed);
  puts_(f, r.unconfirmed_notes);
  std::uint64_t n = r.nt_hashes.size();
  put(f, n);
  fwrite(r.nt_hashes.data(), 8, n, f);
  n = r.labels.size();
  put(f, n);
  for (auto& l : r.labels) { puts_(f, l.first); put(f, l.second); }
  n = r.per_stream.size();
  put(f, n);
  for (auto v : r.per_stream) put(f, v);
  n = r.samples.size();
  put(f, n);
  for (auto& s : r.samples) puts_(f, s);
  std::uint32_t found = r.f.found;
  put(f, found); put(f, r.f.index); put(f, r.f.stream);
  puts_(f, r.f.kind); puts_(f, r.f.msg); puts_(f, r.f.trace);
  n = r.f.tape.size(); put(f, n); fwrite(r.f.tape.data(), 8, n, f);
  n = r.f.span.size(); put(f, n); fwrite(r.f.span.data(), 4, n, f);
  fclose(f);
}

bool load(WorkerResult& r, const std::string& path)
{
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) return false;
  get(f, r.evaluations); get(f, r.nontrivial); get(f, r.inconclusive); get(f, r.mutated); get(f, r.steps); get(f, r.unconfirmed);
  r.unconfirmed_notes = gets_(f);
  std::uint64_t n = 0;
  get(f, n); r.nt_hashes.resize(n);
  if (n && fread(r.nt_hashes.data(), 8, n, f) != n) {}
  get(f, n);
  for (std::uint64_t i = 0; i < n; ++i) { std::string k = gets_(f); std::uint64_t v; get(f, v); r.labels[k] = v; }
  get(f, n); r.per_stream.resize(n);
  for (auto& v : r.per_stream) get(f, v);
  get(f, n);
  for (std::uint64_t i = 0; i < n; ++i) r.samples.push_back(gets_(f));
  std::uint32_t found = 0;
  get(f, found); get(f, r.f.index); get(f, r.f.stream);
  r.f.found = found;
  r.f.kind = gets_(f); r.f.msg = gets_(f); r.f.trace = gets_(f);
  get(f, n); r.f.tape.resize(n); if (n && fread(r.f.tape.data(), 8, n, f) != n) {}
  get(f, n); r.f.span.resize(n); if (n && fread(r.f.span.data(), 4, n, f) != n) {}
  fclose(f);
  return true;
}

struct CorpusEntry {
  std::vector<std::uint64_t> tape;
  std::vector<std::uint32_t> span;
};

void worker(unsigned w, const Options& o, const std::vector<Stream>& streams, const Settings& st,
            const std::string& dir, volatile std::uint32_t* stop)
{
  Runner R(streams, st, dir + "/w" + std::to_string(w));
  WorkerResult res;
  res.per_stream.resize(streams.size());
  std::vector<std::vector<CorpusEntry>> corpus(streams.size());
  unsigned tw = 0;
  for (auto& s : streams) tw += s.weight;
  double t0 = now();
  std::uint64_t groups = 0;
  for (std::uint64_t g = w; ; g += o.workers, ++groups) {
    // group g covers a batch of cases of one stream
    Rng pick(mix(o.seed * 7919 + 17) ^ mix(g));
    unsigned x = pick.below(tw), s = 0;
    while (x >= streams[s].weight) { x -= streams[s].weight; ++s; }
    if (!o.only.empty())
      for (unsigned k = 0; k < streams.size(); ++k)
        if (o.only == streams[k].name) s = k;
    unsigned count = std::min<unsigned>(streams[s].batch, MAXBATCH);
    if (res.evaluations * o.workers >= o.cases || now() - t0 > o.wall || *stop)
      break;
    auto seed_of = [&](unsigned k) { return mix(o.seed) ^ mix(g * 1000003ULL + k * 31 + 7); };
    bool mut = o.mutate && corpus[s].size() > 2 && pick.below(100) < 35;
    std::vector<std::vector<std::uint64_t>> pre(count);
    if (mut) {
      for (unsigned k = 0; k < count; ++k) {
        auto& c = corpus[s][pick.below(corpus[s].size())];
        pre[k] = c.tape;
        mutate(pre[k], c.span, corpus[s][pick.below(corpus[s].size())].tape, pick);
      }
      res.mutated += count;
    }
    Outcome oc = R.run(
        s, count, [&](unsigned k) { return pre[k]; }, true, seed_of);
    unsigned done = g_sh->batch_done;
    for (unsigned k = 0; k < done; ++k) {
      auto& c = g_sh->sum[k];
      res.evaluations++;
      res.per_stream[s]++;
      res.steps += c.steps;
      if (c.nontrivial) {
        res.nontrivial++;
        res.nt_hashes.push_back(c.hash ^ (s * 0x9e3779b97f4a7c15ULL));
      }
      for (unsigned l = 0; l < g_sh->nlabels; ++l)
        if (c.lab[l / 64] >> (l % 64) & 1) res.labels[g_sh->labels[l]]++;
    }
    if (oc.inconclusive) {
      res.inconclusive++;
      continue;
    }
    if (!oc.fail && done && g_sh->sum[done - 1].nontrivial && res.samples.size() < 2 && groups > 3)
      res.samples.push_back(std::string(streams[s].name) + ":\n" + sh_trace().substr(0, 1500));
    if (!oc.fail && done && g_sh->sum[done - 1].newcov && corpus[s].size() < 400)
      corpus[s].push_back({sh_tape(), sh_span()});
    if (oc.fail) {
      res.evaluations++;
      // Confirm in isolation: a failure that never comes back from its own tape is counted, not reported.
      std::vector<std::uint64_t> tape = sh_tape();
      std::vector<std::uint32_t> span = sh_span();
      std::string trace = sh_trace();
      bool hang = oc.kind.compare(0, 4, "hang") == 0;
      unsigned tries = hang ? 1 : o.tries, hits = 0;
      for (unsigned t = 0; t < tries && !hits && !(hang && *stop); ++t) {
        Outcome again = R.run_tape(s, tape);
        if (again.fail) ++hits;
      }
      if (!hits) {
        res.unconfirmed++;
        if (res.unconfirmed_notes.size() < 2000)
          res.unconfirmed_notes += oc.kind + ": " + oc.msg.substr(0, 600) + "\n";
        continue;
      }
      res.f.found = true;
      res.f.index = g;
      res.f.stream = s;
      res.f.kind = oc.kind;
      res.f.msg = oc.msg;
      res.f.trace = trace;
      res.f.tape = tape;
      res.f.span = span;
      *stop = 1;
      break;
    }
  }
  save(res, dir + "/result" + std::to_string(w));
  // coverage: publish this worker's map
  FILE* f = fopen((dir + "/cov" + std::to_string(w)).c_str(), "wb");
  fwrite(g_sh->cov, 1, COVMAP, f);
  fclose(f);
  _exit(0);
}

unsigned g_attempts = 0;
// Shrinks f in place.
void shrink(Runner& R, Failure& f, double wall)
{
  double t0 = now();
  auto attempt = [&](const std::vector<std::uint64_t>& cand) {
    ++g_attempts;
    Outcome o = R.run_tape(f.stream, cand);
    if (!o.fail || o.kind != f.kind)
      return false;
    auto t = sh_tape();
    // prefer what the run actually consumed
    std::vector<std::uint64_t> used = t;
    while (!used.empty() && used.back() == 0) used.pop_back();
    auto bigger = [](const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
      if (a.size() != b.size()) return a.size() > b.size();
      return a > b;
    };
    std::vector<std::uint64_t> cur = f.tape;
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
    if (!bigger(cur, used))
      return false;
    f.tape = used;
    f.span = sh_span();
    f.msg = o.msg;
    f.trace = sh_trace();
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < wall) {
    progress = false;
    // delete runs of operations
    for (std::size_t chunk = std::max<std::size_t>(1, f.span.size() / 2); chunk >= 1; chunk /= 2) {
      for (long j = static_cast<long>(f.span.size()) - static_cast<long>(chunk); j > -static_cast<long>(chunk);
           j -= static_cast<long>(chunk)) {
        std::size_t i = j < 0 ? 0 : static_cast<std::size_t>(j);
        if (now() - t0 > wall) return;
        if (i + 1 > f.span.size()) continue;
        std::size_t b = f.span[i], e = (i + chunk < f.span.size()) ? f.span[i + chunk] : f.tape.size();
        if (b >= f.tape.size()) continue;
        e = std::min(e, f.tape.size());
        if (e <= b) continue;
        std::vector<std::uint64_t> c(f.tape.begin(), f.tape.begin() + b);
        c.insert(c.end(), f.tape.begin() + e, f.tape.end());
        if (attempt(c)) progress = true;
      }
      if (chunk == 1) break;
    }
    // lower single values
    for (std::size_t i = 0; i < f.tape.size(); ++i) {
      if (now() - t0 > wall) return;
      if (f.tape[i] == 0) continue;
      auto c = f.tape;
      c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      std::uint64_t lo = 0, hi = i < f.tape.size() ? f.tape[i] : 0;
      for (int k = 0; k < 12 && hi - lo > 1 && i < f.tape.size(); ++k) {
        std::uint64_t mid = lo + (hi - lo) / 2;
        c = f.tape;
        c[i] = mid;
        if (attempt(c)) { hi = mid; progress = true; } else lo = mid;
        if (now() - t0 > wall) return;
      }
    }
    // delete single values
    for (std::size_t i = 0; i < f.tape.size(); ++i) {
      if (now() - t0 > wall) return;
      auto c = f.tape;
      c.erase(c.begin() + i);
      if (attempt(c)) progress = true;
    }
  }
}

} // namespace

int run_main(int argc, char** argv, const std::vector<Stream>& streams, const Settings& st)
{
  Options o;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") o.cases = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--workers") o.workers = atoi(v.c_str());
    else if (k == "--wall") o.wall = atof(v.c_str());
    else if (k == "--shrink-wall") o.shrink_wall = atof(v.c_str());
    else if (k == "--out") o.out = v;
    else if (k == "--replay") o.replay = v;
    else if (k == "--tmp") o.tmp = v;
    else if (k == "--mutate") o.mutate = v == "1";
    else if (k == "--stream") o.only = v;
    else if (k == "--confirm") o.confirm = atoi(v.c_str());
    else if (k == "--tries") o.tries = atoi(v.c_str());
  }
  if (o.seed == 0) o.seed = 0x5eed;
  std::string tmpl = o.tmp + "/umpire-verif-XXXXXX";
  std::vector<char> buf(tmpl.begin(), tmpl.end());
  buf.push_back(0);
  if (!mkdtemp(buf.data())) {
    perror("mkdtemp");
    return 3;
  }
  std::string dir = buf.data();

  if (!o.replay.empty()) {
    // replay file: first line "stream <name>", second line "tape n n n ..."
    std::ifstream f(o.replay);
    std::string word, name;
    std::vector<std::uint64_t> tape;
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      is >> word;
      if (word == "stream") is >> name;
      else if (word == "tape") {
        std::uint64_t v;
        while (is >> v) tape.push_back(v);
      }
    }
    unsigned s = 0;
    for (unsigned k = 0; k < streams.size(); ++k)
      if (name == streams[k].name) s = k;
    Runner R(streams, st, dir + "/replay");
    Outcome oc = R.run_tape(s, tape);
    printf("%s\n--- trace ---\n%s--- end of trace ---\n", oc.fail ? ("FAIL kind=" + oc.kind).c_str() : "PASS",
           sh_trace().c_str());
    if (oc.fail) printf("%s\n", oc.msg.c_str());
    rm_rf(dir);
    return oc.fail ? 1 : 0;
  }

  double t0 = now();
  volatile std::uint32_t* stop = static_cast<volatile std::uint32_t*>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *stop = 0;
  std::vector<pid_t> pids;
  fflush(nullptr);
  for (unsigned w = 0; w < o.workers; ++w) {
    pid_t p = fork();
    if (p == 0) worker(w, o, streams, st, dir, stop);
    pids.push_back(p);
  }
  for (pid_t p : pids) {
    int s;
    while (waitpid(p, &s, 0) < 0 && errno == EINTR) {
    }
  }
  WorkerResult tot;
  tot.per_stream.resize(streams.size());
  std::unordered_set<std::uint64_t> distinct;
  std::vector<unsigned char> cov(COVMAP);
  std::vector<Failure> fails;
  unsigned lost = 0;
  for (unsigned w = 0; w < o.workers; ++w) {
    WorkerResult r;
    if (!load(r, dir + "/result" + std::to_string(w))) {
      ++lost;
      continue;
    }
    tot.evaluations += r.evaluations;
    tot.nontrivial += r.nontrivial;
    tot.inconclusive += r.inconclusive;
    tot.mutated += r.mutated;
    tot.steps += r.steps;
    tot.unconfirmed += r.unconfirmed;
    tot.unconfirmed_notes += r.unconfirmed_notes;
    for (auto h : r.nt_hashes) distinct.insert(h);
    for (auto& l : r.labels) tot.labels[l.first] += l.second;
    for (std::size_t i = 0; i < r.per_stream.size() && i < streams.size(); ++i) tot.per_stream[i] += r.per_stream[i];
    for (auto& s : r.samples)
      if (tot.samples.size() < 5) tot.samples.push_back(s);
    if (r.f.found) fails.push_back(r.f);
    FILE* f = fopen((dir + "/cov" + std::to_string(w)).c_str(), "rb");
    if (f) {
      std::vector<unsigned char> m(COVMAP);
      if (fread(m.data(), 1, COVMAP, f) == COVMAP)
        for (std::size_t i = 0; i < COVMAP; ++i) cov[i] |= m[i];
      fclose(f);
    }
  }
  std::uint64_t edges = 0;
  for (auto c : cov) edges += c != 0;
  std::sort(fails.begin(), fails.end(), [](const Failure& a, const Failure& b) { return a.index < b.index; });

  Failure best;
  unsigned unconfirmed = 0;
  if (!fails.empty()) {
    Runner R(streams, st, dir + "/shrink");
    for (auto& f : fails) {
      // Confirm first: the failing case alone, in a fresh process.
      unsigned tries = 0, hits = 0;
      std::string kind;
      bool hang = f.kind.compare(0, 4, "hang") == 0;
      unsigned need = hang ? 1 : o.confirm;
      for (; tries < (hang ? 4 : o.tries) && hits < need; ++tries) {
        Outcome oc = R.run_tape(f.stream, f.tape);
        if (oc.fail) {
          ++hits;
          kind = oc.kind;
          f.msg = oc.msg;
          f.trace = sh_trace();
        }
      }
      if (hits < need) {
        ++unconfirmed;
        continue;
      }
      f.kind = kind;
      best = f;
      break;
    }
    if (best.found) {
      Failure orig = best;
      shrink(R, best, o.shrink_wall);
      if (best.kind.compare(0, 4, "hang") != 0) {
        unsigned hits = 0, tries = 0;
        for (; tries < o.tries && hits < o.confirm; ++tries)
          if (R.run_tape(best.stream, best.tape).fail) ++hits;
        if (hits < o.confirm) best = orig;
      }
    }
  }

  std::ostringstream js;
  js << "{\n \"evaluations\": " << tot.evaluations << ",\n \"nontrivial\": " << tot.nontrivial
     << ",\n \"distinct_nontrivial\": " << distinct.size() << ",\n \"mutated_from_corpus\": " << tot.mutated
     << ",\n \"inconclusive\": " << tot.inconclusive << ",\n \"operations\": " << tot.steps
     << ",\n \"edges_covered\": " << edges << ",\n \"edges_total\": " << g_cov_total << ",\n \"lost_workers\": " << lost
     << ",\n \"unconfirmed\": " << unconfirmed + tot.unconfirmed << ",\n \"unconfirmed_notes\": " << jstr(tot.unconfirmed_notes.substr(0, 4000)) << ",\n \"shrink_attempts\": " << g_attempts << ",\n \"wall_s\": " << (now() - t0) << ",\n \"streams\": {";
  for (std::size_t i = 0; i < streams.size(); ++i)
    js << (i ? ", " : "") << jstr(streams[i].name) << ": {\"cases\": " << tot.per_stream[i]
       << ", \"rule\": " << jstr(streams[i].rule) << "}";
  js << "},\n \"labels\": {";
  bool first = true;
  for (auto& l : tot.labels) {
    js << (first ? "" : ", ") << jstr(l.first) << ": " << l.second;
    first = false;
  }
  js << "},\n \"samples\": [";
  for (std::size_t i = 0; i < tot.samples.size(); ++i) js << (i ? ", " : "") << jstr(tot.samples[i]);
  js << "]";
  if (best.found)
    js << ",\n \"failure\": {\"stream\": " << jstr(streams[best.stream].name) << ", \"case\": " << best.index
       << ", \"kind\": " << jstr(best.kind) << ", \"msg\": " << jstr(best.msg) << ", \"trace\": " << jstr(best.trace)
       << ", \"tape\": " << jtape(best.tape) << "}";
  js << "\n}\n";
  if (!o.out.empty()) {
    std::ofstream f(o.out);
    f << js.str();
  } else
    printf("%s", js.str().c_str());
  rm_rf(dir);
  return best.found ? 1 : 0;
}

} // namespace pbt

// ---- coverage callbacks for /repo's objects (built with -fsanitize-coverage=trace-pc-guard) ----------------
extern "C" __attribute__((no_sanitize("address", "undefined", "thread"))) void __sanitizer_cov_trace_pc_guard_init(
    std::uint32_t* start, std::uint32_t* stop)
{
  if (start == stop || *start) return;
  for (std::uint32_t* x = start; x < stop; ++x) *x = ++pbt::g_cov_total;
}
extern "C" __attribute__((no_sanitize("address", "undefined", "thread"))) void __sanitizer_cov_trace_pc_guard(
    std::uint32_t* guard)
{
  std::uint32_t i = *guard;
  if (!i || !pbt::g_sh) return;
  unsigned char& c = pbt::g_sh->cov[i & (pbt::COVMAP - 1)];
  if (!c) {
    c = 1;
    pbt::g_sh->newcov++;
  }
}

extern "C" __attribute__((used, visibility("default"))) const char* __asan_default_options()
{
  return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0:handle_abort=0:"
         "detect_stack_use_after_return=0:quarantine_size_mb=16:max_allocation_size_mb=4096:"
         "allocator_release_to_os_interval_ms=-1:symbolize=1:print_summary=0:detect_odr_violation=0:"
         "handle_sigfpe=1:malloc_context_size=8";
}
extern "C" __attribute__((used, visibility("default"))) const char* __ubsan_default_options()
{
  return "print_stacktrace=1:exitcode=77:halt_on_error=1";
}
extern "C" __attribute__((used, visibility("default"))) const char* __tsan_default_options()
{
  return "exitcode=77:halt_on_error=1:report_signal_unsafe=0:history_size=4:"
         "second_deadlock_stack=1:detect_deadlocks=1:die_after_fork=0";
}

bool pbt::g_real_backtrace = false;

// Umpire captures and prints a backtrace in every exception it builds. glibc's backtrace_symbols() walks the
// whole dynamic symbol table per frame, which makes rejected operations thousands of times slower than accepted
// ones; the text of the trace is part of one property only (C34), so both calls are otherwise replaced by cheap ones.
extern "C" __attribute__((used, visibility("default"))) int backtrace(void** buf, int n)
{
  if (n <= 0) return 0;
  if (pbt::g_real_backtrace) { // for the property that is about them
    static auto real = reinterpret_cast<int (*)(void**, int)>(dlsym(RTLD_NEXT, "backtrace"));
    return real(buf, n);
  }
  buf[0] = __builtin_return_address(0);
  return 1;
}
extern "C" __attribute__((used, visibility("default"))) char** backtrace_symbols(void* const*, int n)
{
  std::size_t head = sizeof(char*) * (n > 0 ? n : 1);
  char** r = static_cast<char**>(malloc(head + 8));
  char* txt = reinterpret_cast<char*>(r) + head;
  strcpy(txt, "frame");
  for (int i = 0; i < n; ++i) r[i] = txt;
  return r;
}
