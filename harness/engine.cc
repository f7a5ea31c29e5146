// Campaign driver: generates cases from VERIF_SEED, runs them in forked workers,
// confirms and shrinks failures, writes the evidence file and replay file.
#include "pbt.h"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace fs = std::filesystem;

namespace pbt {
std::vector<Facet> &registry() {
  static std::vector<Facet> r;
  return r;
}
}  // namespace pbt

using namespace pbt;

extern "C" __attribute__((weak)) const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null="
         "0:max_allocation_size_mb=3000:detect_container_overflow=0:"
         "max_malloc_fill_size=1048576:malloc_fill_byte=165:handle_abort=0:"
         "detect_stack_use_after_return=0:alloc_dealloc_mismatch=0";
}
extern "C" __attribute__((weak)) const char *__ubsan_default_options() {
  return "halt_on_error=1:print_stacktrace=1:exitcode=99";
}

namespace {

using Clock = std::chrono::steady_clock;
double now() {
  return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

constexpr int kExitFail = 10;         // worker: property violated
constexpr int kMaxJobs = 64;

struct Slot {  // shared memory, one per worker
  volatile uint64_t current;          // index of the case being run
  volatile uint64_t started;          // cases started
  volatile double heartbeat;
  char tag[128];
  char msg[2048];
};

Slot *slots;
std::string gScratch;
std::string gTier = "quick";
uint64_t gSeed = 1;
int gJobs = 8;

uint64_t hashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
uint64_t hashGenome(const Genome &g, size_t n) {
  uint64_t h = 77;
  while (n > 0 && g[n - 1] == 0) --n;
  for (size_t i = 0; i < n; ++i) h = mix(h ^ g[i]);
  return h;
}

Genome makeGenome(const Facet &f, uint64_t seed, uint64_t index) {
  uint64_t s = mix(mix(seed) ^ hashStr(f.property + "/" + f.name)) ^ mix(index);
  uint64_t k = 0;
  auto rnd = [&]() { return mix(s + 0x1234567 * ++k); };
  size_t len;
  uint64_t mode = rnd() % 8;
  if (mode == 0)
    len = rnd() % (f.genomeMax / 4 + 1);
  else if (mode < 4)
    len = rnd() % (f.genomeMax + 1);
  else
    len = f.genomeMax;
  Genome g(len);
  for (uint32_t &v : g) v = uint32_t(rnd() >> 16);
  return g;
}

fs::path freshScratch(const std::string &name) {
  fs::path p = fs::path(gScratch) / name;
  std::error_code ec;
  fs::remove_all(p, ec);
  fs::create_directories(p, ec);
  return p;
}

std::string jsonEsc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += char(c);
  }
  return o;
}

struct Totals {
  uint64_t evaluations = 0, sub = 0, nontrivial = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

// Runs one case in this process. Returns true if it passed.
bool runCase(const Facet &f, const Genome &g, uint64_t id, const std::string &scr,
             Totals &t, std::string &tag, std::string &msg, std::string *desc) {
  Ctx c(g, id, scr);
  bool ok = true;
  try {
    f.fn(c);
  } catch (Failure &e) {
    tag = e.tag;
    msg = e.what();
    ok = false;
  } catch (std::exception &e) {
    tag = "unexpected-exception";
    msg = e.what();
    ok = false;
  } catch (...) {
    tag = "unexpected-exception";
    msg = "non-standard exception";
    ok = false;
  }
  t.evaluations++;
  t.sub += c.subEvaluations;
  if (c.isNontrivial) {
    t.nontrivial++;
    t.distinct.insert(hashGenome(g, c.consumed()));
  }
  for (auto &l : c.labels) t.labels[l.first] += l.second;
  if (desc) *desc = c.desc.str();
  return ok;
}

void redirect(const std::string &path) {
  int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
  }
}

[[noreturn]] void workerMain(const Facet &f, int w, int jobs, uint64_t nCases,
                             double deadline, const std::string &out) {
  redirect(out + ".log");
  Slot &slot = slots[w];
  Totals t;
  const std::string scr = (fs::path(gScratch) / ("w" + std::to_string(w))).string();
  for (uint64_t i = w; i < nCases; i += jobs) {
    if (now() > deadline) break;
    slot.current = i;
    slot.started = slot.started + 1;
    slot.heartbeat = now();
    Genome g = makeGenome(f, gSeed, i);
    freshScratch("w" + std::to_string(w));
    std::string tag, msg, desc;
    bool ok = runCase(f, g, i, scr, t, tag, msg, &desc);
    if (t.samples.size() < 3 && (desc.size() > 0))
      t.samples.push_back("case " + std::to_string(i) + ": " + desc.substr(0, 600));
    if (!ok) {
      strncpy(slot.tag, tag.c_str(), sizeof slot.tag - 1);
      strncpy(slot.msg, msg.c_str(), sizeof slot.msg - 1);
      fflush(stdout);
      _exit(kExitFail);
    }
  }
  {
    std::ofstream o(out);
    o << "E " << t.evaluations << ' ' << t.sub << ' ' << t.nontrivial << '\n';
    for (auto &l : t.labels) o << "L " << l.second << ' ' << l.first << '\n';
    for (uint64_t h : t.distinct) o << "H " << h << '\n';
    for (std::string s : t.samples) {
      std::replace(s.begin(), s.end(), '\n', ' ');
      o << "S " << s << '\n';
    }
  }
  fflush(stdout);
  _exit(0);
}

struct Outcome {
  std::string kind;  // "pass", "fail", "crash", "hang"
  std::string tag, msg, desc;
};

std::string tailOf(const std::string &path, size_t n = 1500) {
  std::ifstream i(path);
  std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p == std::string::npos) p = s.find("terminate called");
  if (p != std::string::npos) return s.substr(p, n);
  return s.size() > n ? s.substr(s.size() - n) : s;
}

// Runs one genome in a fresh process.
Outcome runIsolated(const Facet &f, const Genome &g, uint64_t id, double timeout) {
  static int serial = 0;
  const std::string name = "iso" + std::to_string(serial++ % 4);
  const fs::path scr = freshScratch(name);
  const std::string log = (fs::path(gScratch) / (name + ".log")).string();
  const std::string res = (fs::path(gScratch) / (name + ".res")).string();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    redirect(log);
    Totals t;
    std::string tag, msg, desc;
    bool ok = runCase(f, g, id, scr.string(), t, tag, msg, &desc);
    std::ofstream o(res);
    o << tag << '\n' << msg << '\n' << '\1' << desc;
    o.close();
    fflush(stdout);
    _exit(ok ? 0 : kExitFail);
  }
  Outcome r;
  double t0 = now();
  int st = 0;
  useconds_t nap = 200;
  for (;;) {
    pid_t p = waitpid(pid, &st, WNOHANG);
    if (p == pid) break;
    if (now() - t0 > timeout) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      r.kind = "hang";
      r.tag = "hang";
      r.msg = "case did not finish within " + std::to_string(int(timeout)) + " s";
      return r;
    }
    usleep(nap);
    if (nap < 5000) nap += nap / 2;
  }
  kill(-pid, SIGKILL);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    r.kind = "pass";
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == kExitFail) {
    r.kind = "fail";
    std::ifstream i(res);
    std::getline(i, r.tag);
    std::string all((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    size_t p = all.find("\n\1");
    r.msg = all.substr(0, p);
    if (p != std::string::npos) r.desc = all.substr(p + 2);
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    r.kind = "killed";  // out of memory: inconclusive
    r.tag = "killed";
  } else {
    r.kind = "crash";
    r.tag = "crash";
    std::ostringstream s;
    if (WIFSIGNALED(st))
      s << "process died with signal " << WTERMSIG(st);
    else
      s << "process exited with code " << WEXITSTATUS(st);
    s << ": " << tailOf(log);
    r.msg = s.str();
  }
  return r;
}

bool sameKind(const Outcome &a, const Outcome &b) {
  return a.kind == b.kind && (a.kind != "fail" || a.tag == b.tag);
}

// Runs a genome up to n times, returns first non-passing outcome.
Outcome runRepeated(const Facet &f, const Genome &g, uint64_t id, int n,
                    double timeout, int *failures = nullptr) {
  Outcome last;
  last.kind = "pass";
  for (int i = 0; i < n; ++i) {
    Outcome o = runIsolated(f, g, id, timeout);
    if (o.kind != "pass" && o.kind != "killed") {
      last = o;
      if (failures)
        ++*failures;
      else
        return o;
    }
  }
  return last;
}

Genome shrink(const Facet &f, Genome g, uint64_t id, Outcome &best, double budget) {
  const double deadline = now() + budget;
  const int tries = f.schedule ? 3 : 1;
  const double timeout = best.kind == "hang" ? 15 : f.hang;
  auto attempt = [&](const Genome &c) {
    if (now() > deadline) return false;
    Outcome o = runRepeated(f, c, id, tries, timeout);
    if (!sameKind(o, best)) return false;
    best = o;
    return true;
  };
  while (!g.empty() && g.back() == 0) g.pop_back();
  // truncation
  for (size_t cut = g.size() / 2; cut > 0 && now() < deadline;) {
    if (cut <= g.size()) {
      Genome c(g.begin(), g.end() - cut);
      if (attempt(c)) {
        g = c;
        cut = std::min(cut, g.size());
        if (g.empty()) break;
        continue;
      }
    }
    cut /= 2;
  }
  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    for (size_t len : {size_t(16), size_t(8), size_t(4), size_t(2), size_t(1)}) {
      // deletion
      for (size_t i = 0; i + len <= g.size() && now() < deadline;) {
        Genome c = g;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) {
          g = c;
          progress = true;
        } else
          i += len;
      }
      // zeroing
      for (size_t i = 0; i + len <= g.size() && now() < deadline; i += len) {
        Genome c = g;
        bool any = false;
        for (size_t k = i; k < i + len; ++k) {
          any |= c[k] != 0;
          c[k] = 0;
        }
        if (any && attempt(c)) {
          g = c;
          progress = true;
        }
      }
    }
    // minimise values
    for (size_t i = 0; i < g.size() && now() < deadline; ++i) {
      if (g[i] == 0) continue;
      for (uint32_t m : {1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 16u, 100u}) {
        if (g[i] <= m) break;
        Genome c = g;
        c[i] = m;
        if (attempt(c)) {
          g = c;
          progress = true;
          break;
        }
      }
      for (int shift = 16; shift >= 1 && now() < deadline; shift /= 2) {
        Genome c = g;
        c[i] = g[i] >> shift;
        if (c[i] != g[i] && c[i] > 8 && attempt(c)) {
          g = c;
          progress = true;
        }
      }
    }
    while (!g.empty() && g.back() == 0) g.pop_back();
  }
  return g;
}

std::string genomeText(const Genome &g) {
  std::ostringstream s;
  for (size_t i = 0; i < g.size(); ++i) s << (i ? " " : "") << g[i];
  return s.str();
}

struct FacetResult {
  const Facet *f;
  Totals t;
  double wall = 0;
  bool capped = false;
  int unreproduced = 0;
};

std::string writeReplay(const std::string &dir, const Facet &f, uint64_t seed,
                        uint64_t index, const Genome &g, const Outcome &o,
                        const std::string &mode) {
  fs::create_directories(dir);
  const std::string path = dir + "/" + f.property + "-" + f.name + ".replay";
  std::ofstream r(path);
  r << "property " << f.property << "\nfacet " << f.name << "\nmode " << mode
    << "\nseed " << seed << "\nindex " << index << "\njobs " << gJobs
    << "\ngenome " << genomeText(g) << "\n# kind: " << o.kind << "\n# clause: "
    << o.tag << "\n";
  std::istringstream m(o.msg + "\n" + o.desc);
  std::string line;
  while (std::getline(m, line)) r << "# " << line << '\n';
  return path;
}

// Re-runs the case sequence of one worker in a fresh process (for failures that
// need state left behind by earlier cases of the same process).
Outcome runPrefix(const Facet &f, uint64_t seed, uint64_t index, int jobs,
                  double timeout) {
  const std::string log = (fs::path(gScratch) / "prefix.log").string();
  const fs::path scr = fs::path(gScratch) / "prefix";
  Slot &slot = slots[kMaxJobs - 1];
  memset((void *)&slot, 0, sizeof(Slot));
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    redirect(log);
    Totals t;
    for (uint64_t i = index % jobs; i <= index; i += jobs) {
      freshScratch("prefix");
      std::string tag, msg;
      if (!runCase(f, makeGenome(f, seed, i), i, scr.string(), t, tag, msg, nullptr)) {
        strncpy(slot.tag, tag.c_str(), sizeof slot.tag - 1);
        strncpy(slot.msg, msg.c_str(), sizeof slot.msg - 1);
        _exit(kExitFail);
      }
    }
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  Outcome r;
  while (waitpid(pid, &st, WNOHANG) != pid) {
    if (now() - t0 > timeout) {
      kill(-pid, SIGKILL);
      waitpid(pid, &st, 0);
      r.kind = "pass";  // inconclusive
      return r;
    }
    usleep(2000);
  }
  kill(-pid, SIGKILL);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    r.kind = "pass";
  else if (WIFEXITED(st) && WEXITSTATUS(st) == kExitFail) {
    r.kind = "fail";
    r.tag = slot.tag;
    r.msg = slot.msg;
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
    r.kind = "pass";
  else {
    r.kind = "crash";
    r.tag = "crash";
    r.msg = tailOf(log);
  }
  return r;
}

struct Candidate {
  uint64_t index;
  std::string kind, tag, msg;
};

}  // namespace

int main(int argc, char **argv) {
  std::string property, evidence, replayDir, replay, only, genomeFile;
  double casesScale = 1.0, budget = 0;
  uint64_t oneCase = UINT64_MAX;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") property = next();
    else if (a == "--facet") only = next();
    else if (a == "--tier") gTier = next();
    else if (a == "--seed") gSeed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--evidence") evidence = next();
    else if (a == "--replay-dir") replayDir = next();
    else if (a == "--replay") replay = next();
    else if (a == "--genome") genomeFile = next();
    else if (a == "--jobs") gJobs = atoi(next().c_str());
    else if (a == "--scale") casesScale = atof(next().c_str());
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--case") oneCase = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--list") list = true;
  }
  signal(SIGPIPE, SIG_IGN);
  if (list) {
    for (auto &f : registry()) std::cout << f.property << ' ' << f.name << '\n';
    return 0;
  }
  if (replayDir.empty()) replayDir = "replays";
  const char *tmp = getenv("TMPDIR");
  std::string tmpl = std::string(tmp && *tmp ? tmp : "/tmp") + "/vpdysco.XXXXXX";
  std::vector<char> tbuf(tmpl.begin(), tmpl.end());
  tbuf.push_back(0);
  if (!mkdtemp(tbuf.data())) {
    std::cerr << "cannot create scratch directory\n";
    return 2;
  }
  gScratch = tbuf.data();
  struct Cleanup {
    ~Cleanup() {
      std::error_code ec;
      if (gScratch.find("vpdysco.") != std::string::npos) fs::remove_all(gScratch, ec);
    }
  } cleanup;
  slots = static_cast<Slot *>(mmap(nullptr, sizeof(Slot) * kMaxJobs, PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  gJobs = std::max(1, std::min(gJobs, kMaxJobs - 2));

  if (const char *kf = getenv("VP_FINDINGS")) {
    std::ifstream in(kf);
    std::string line;
    while (std::getline(in, line)) {
      if (line.rfind("finding: ", 0) != 0) continue;
      std::istringstream l(line.substr(9));
      std::string p, id, what;
      l >> p >> id;
      std::getline(l, what);
      if (p.rfind("property=", 0) == 0 && id.rfind("id=", 0) == 0 &&
          (property.empty() || p.substr(9) == property))
        Ctx::known()[id.substr(3)] = p + what;
    }
  }

  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line, prop, facet, mode = "case";
    uint64_t index = 0, seed = 1;
    int jobs = 8;
    Genome g;
    while (std::getline(in, line)) {
      std::istringstream l(line);
      std::string k;
      l >> k;
      if (k == "property") l >> prop;
      else if (k == "facet") l >> facet;
      else if (k == "mode") l >> mode;
      else if (k == "seed") l >> seed;
      else if (k == "index") l >> index;
      else if (k == "jobs") l >> jobs;
      else if (k == "genome") {
        uint64_t v;
        while (l >> v) g.push_back(uint32_t(v));
      }
    }
    for (const Facet &f : registry())
      if (f.property == prop && f.name == facet) {
        Outcome o = mode == "prefix" ? runPrefix(f, seed, index, jobs, 600)
                                     : runRepeated(f, g, index, f.schedule ? 50 : 1, f.hang);
        std::cout << "kind: " << o.kind << "\nclause: " << o.tag << '\n'
                  << o.msg << '\n' << o.desc << '\n';
        if (o.kind == "pass") return 0;
        std::cout << "VIOLATION property=" << prop << " replay=" << replay << '\n';
        return 1;
      }
    std::cerr << "unknown facet in replay file\n";
    return 2;
  }

  if (!genomeFile.empty()) {  // one case in this process
    Genome g;
    std::ifstream in(genomeFile);
    uint64_t v;
    while (in >> v) g.push_back(uint32_t(v));
    for (const Facet &f : registry())
      if (f.property == property && f.name == only) {
        Totals t;
        std::string tag, msg, desc;
        const bool ok = runCase(f, g, 0, freshScratch("one").string(), t, tag, msg, &desc);
        std::cout << (t.nontrivial ? "NONTRIVIAL " : "") << desc << '\n';
        if (!ok) std::cout << "clause: " << tag << '\n' << msg << '\n';
        return ok ? 0 : kExitFail;
      }
    return 2;
  }

  const double t0 = now();
  const double totalBudget = budget > 0 ? budget : (gTier == "thorough" ? 540.0 : 170.0);
  std::vector<const Facet *> facets;
  for (const Facet &f : registry())
    if (f.property == property && (only.empty() || only == f.name)) facets.push_back(&f);
  if (facets.empty()) {
    std::cerr << "no such property: " << property << '\n';
    return 2;
  }
  if (oneCase != UINT64_MAX) {
    Genome g = makeGenome(*facets[0], gSeed, oneCase);
    Outcome o = runIsolated(*facets[0], g, oneCase, facets[0]->hang);
    std::cout << o.kind << ' ' << o.tag << '\n' << o.msg << '\n' << o.desc << '\n'
              << genomeText(g) << '\n';
    return o.kind == "pass" ? 0 : 1;
  }

  std::vector<FacetResult> results;
  std::string violationLine;
  std::vector<std::string> notes;
  for (size_t fi = 0; fi < facets.size() && violationLine.empty(); ++fi) {
    const Facet &f = *facets[fi];
    const double ft0 = now();
    const double share = (totalBudget - (ft0 - t0)) / double(facets.size() - fi);
    const double deadline = ft0 + std::max(8.0, share);
    uint64_t n = uint64_t(double(gTier == "thorough" ? f.thorough : f.quick) * casesScale);
    if (n == 0) n = 1;
    const int jobs = std::min(gJobs, f.maxJobs);
    FacetResult res;
    res.f = &f;
    std::vector<pid_t> pids(jobs);
    std::vector<std::string> outs(jobs);
    memset((void *)slots, 0, sizeof(Slot) * kMaxJobs);
    for (int w = 0; w < jobs; ++w) {
      outs[w] = gScratch + "/out" + std::to_string(fi) + "." + std::to_string(w);
      slots[w].heartbeat = now();
      fflush(stdout);
      pids[w] = fork();
      if (pids[w] == 0) {
        setpgid(0, 0);
        workerMain(f, w, jobs, n, deadline, outs[w]);
      }
    }
    int alive = jobs;
    std::vector<bool> done(jobs, false);
    std::vector<Candidate> cands;
    while (alive > 0) {
      bool any = false;
      for (int w = 0; w < jobs; ++w) {
        if (done[w]) continue;
        int st = 0;
        pid_t p = waitpid(pids[w], &st, WNOHANG);
        if (p == pids[w]) {
          kill(-pids[w], SIGKILL);
          any = true;
          done[w] = true;
          --alive;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
          Candidate c;
          c.index = slots[w].current;
          if (WIFEXITED(st) && WEXITSTATUS(st) == kExitFail) {
            c.kind = "fail";
            c.tag = slots[w].tag;
            c.msg = slots[w].msg;
          } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            c.kind = "killed";
          } else {
            c.kind = c.tag = "crash";
            c.msg = tailOf(outs[w] + ".log");
          }
          cands.push_back(c);
        } else if (now() - slots[w].heartbeat > f.hang) {
          Candidate c;
          c.index = slots[w].current;
          c.kind = c.tag = "hang";
          c.msg = "no progress";
          cands.push_back(c);
          kill(-pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          done[w] = true;
          --alive;
        }
      }
      if (!cands.empty()) {
        // a failure was found: stop the other workers
        for (int w = 0; w < jobs; ++w)
          if (!done[w]) {
            kill(-pids[w], SIGKILL);
            int st;
            waitpid(pids[w], &st, 0);
            done[w] = true;
          }
        alive = 0;
      }
      if (!any && alive > 0) usleep(3000);
    }
    for (int w = 0; w < jobs; ++w) {
      std::ifstream in(outs[w]);
      std::string line;
      while (std::getline(in, line)) {
        std::istringstream l(line.substr(2));
        if (line[0] == 'E') {
          uint64_t a, b, c;
          l >> a >> b >> c;
          res.t.evaluations += a;
          res.t.sub += b;
          res.t.nontrivial += c;
        } else if (line[0] == 'L') {
          uint64_t k;
          std::string name;
          l >> k;
          std::getline(l, name);
          res.t.labels[name.substr(1)] += k;
        } else if (line[0] == 'H') {
          uint64_t h;
          l >> h;
          res.t.distinct.insert(h);
        } else if (line[0] == 'S' && res.t.samples.size() < 4)
          res.t.samples.push_back(line.substr(2));
      }
    }
    if (cands.empty() && res.t.evaluations < n) res.capped = true;
    if (!cands.empty()) {  // account for what ran before the failure
      uint64_t started = 0;
      for (int w = 0; w < jobs; ++w) started += slots[w].started;
      res.t.evaluations = std::max(res.t.evaluations, started);
    }
    // confirm
    for (const Candidate &c : cands) {
      if (c.kind == "killed") {
        notes.push_back("a worker was killed (out of memory); case " + std::to_string(c.index));
        continue;
      }
      Genome g = makeGenome(f, gSeed, c.index);
      Outcome o;
      o.kind = "pass";
      if (c.kind == "hang") {
        int hangs = 0;
        for (int k = 0; k < (f.schedule ? 12 : 3); ++k) {
          Outcome h = runIsolated(f, g, c.index, f.hang);
          if (h.kind == "hang") ++hangs;
          if (h.kind != "pass") o = h;
          if (f.schedule ? h.kind != "pass" : h.kind == "pass") break;
        }
        if (o.kind == "hang" && hangs < 3 && !f.schedule) o.kind = "pass";
      } else {
        o = runRepeated(f, g, c.index, std::max(f.replays, f.schedule ? 25 : 3), f.hang);
      }
      if (o.kind == "pass") {
        // not reproducible alone: try with the history of its worker process
        Outcome p = c.kind == "hang" ? o : runPrefix(f, gSeed, c.index, jobs, 150);
        if (p.kind != "pass") {
          std::string path = writeReplay(replayDir, f, gSeed, c.index, g, p, "prefix");
          std::cout << "FAILED " << f.property << "/" << f.name << " clause=" << p.tag << '\n'
                    << p.msg << '\n';
          violationLine = "VIOLATION property=" + f.property + " replay=" + path;
          break;
        }
        if (c.kind == "fail" || c.kind == "crash") {
          // The oracle is deterministic, so the observation stands even though
          // it depends on something (thread schedule) that did not recur.
          Outcome seen;
          seen.kind = c.kind;
          seen.tag = c.tag;
          seen.msg = c.msg + " [observed once in the campaign; not reproduced in replays]";
          if (f.schedule) {
            std::string path = writeReplay(replayDir, f, gSeed, c.index, g, seen, "case");
            std::cout << "FAILED " << f.property << "/" << f.name << " clause=" << c.tag << '\n'
                      << seen.msg << '\n';
            violationLine = "VIOLATION property=" + f.property + " replay=" + path;
            break;
          }
        }
        res.unreproduced++;
        notes.push_back("unreproduced " + c.kind + " in " + f.name + " case " +
                        std::to_string(c.index) + ": " + c.tag + " " + c.msg.substr(0, 300));
        continue;
      }
      Outcome best = o;
      Genome small = shrink(f, g, c.index, best, gTier == "thorough" ? 90 : 40);
      if (best.kind == "fail" && best.desc.empty()) best.desc = o.desc;
      std::string path = writeReplay(replayDir, f, gSeed, c.index, small, best, "case");
      std::cout << "FAILED " << f.property << "/" << f.name << " kind=" << best.kind
                << " clause=" << best.tag << '\n'
                << best.msg << '\n'
                << best.desc << '\n';
      violationLine = "VIOLATION property=" + f.property + " replay=" + path;
      break;
    }
    res.wall = now() - ft0;
    results.push_back(std::move(res));
  }

  // evidence
  uint64_t ev = 0, di = 0, sub = 0;
  std::ostringstream rules, samples, facetJson;
  bool firstS = true;
  for (size_t i = 0; i < results.size(); ++i) {
    FacetResult &r = results[i];
    ev += r.t.evaluations;
    di += r.t.distinct.size();
    sub += r.t.sub;
    rules << (i ? " || " : "") << r.f->name << ": " << r.f->rule;
    for (auto &s : r.t.samples) {
      samples << (firstS ? "" : ",") << "\n    \"" << jsonEsc(r.f->name + " " + s) << "\"";
      firstS = false;
    }
    facetJson << (i ? "," : "") << "\n    \"" << r.f->name << "\": {\"evaluations\": "
              << r.t.evaluations << ", \"nontrivial\": " << r.t.nontrivial
              << ", \"distinct_nontrivial\": " << r.t.distinct.size()
              << ", \"oracle_comparisons\": " << r.t.sub << ", \"wall_s\": " << r.wall
              << ", \"stopped_by_time_budget\": " << (r.capped ? "true" : "false")
              << ", \"labels\": {";
    bool fl = true;
    for (auto &l : r.t.labels) {
      facetJson << (fl ? "" : ", ") << "\"" << jsonEsc(l.first) << "\": " << l.second;
      fl = false;
    }
    facetJson << "}}";
  }
  if (!evidence.empty()) {
    fs::create_directories(fs::path(evidence).parent_path());
    std::ofstream o(evidence + ".tmp");
    o << "{\n  \"property\": \"" << property << "\",\n  \"tier\": \"" << gTier
      << "\",\n  \"seed\": " << gSeed << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n"
      << "   \"evaluations\": " << ev << ",\n   \"distinct_nontrivial\": " << di
      << ",\n   \"oracle_comparisons\": " << sub << ",\n   \"rule\": \"" << jsonEsc(rules.str())
      << "\",\n   \"samples\": [" << samples.str() << "\n   ],\n   \"facets\": {"
      << facetJson.str() << "\n   },\n   \"notes\": [";
    for (size_t i = 0; i < notes.size(); ++i)
      o << (i ? "," : "") << "\"" << jsonEsc(notes[i]) << "\"";
    o << "]\n  },\n  \"assumptions\": [\"tests sample the stated domain; they do not establish "
         "absence of violations\"],\n  \"wall_s\": "
      << now() - t0 << ",\n  \"violations\": " << (violationLine.empty() ? 0 : 1) << "\n}\n";
    o.close();
    fs::rename(evidence + ".tmp", evidence);
  }
  for (auto &r : results)
    std::cout << r.f->property << "/" << r.f->name << ": " << r.t.evaluations << " cases, "
              << r.t.distinct.size() << " distinct non-trivial, " << r.t.sub
              << " comparisons, " << r.wall << " s" << (r.capped ? " (time budget)" : "") << '\n';
  for (auto &n : notes) std::cout << "note: " << n << '\n';
  for (auto &k : Ctx::known()) {
    uint64_t n = 0;
    for (auto &r : results) {
      auto l = r.t.labels.find("KNOWN:" + k.first);
      if (l != r.t.labels.end()) n += l->second;
    }
    if (n > 0) std::cout << "KNOWN-FINDING: " << k.second << " [met in " << n << " cases]\n";
  }
  if (!violationLine.empty()) {
    std::cout << violationLine << std::endl;
    return 1;
  }
  return 0;
}
