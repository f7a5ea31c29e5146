// Property C15: results do not depend on thread timing.
#include "delay.h"
#include "history.h"
#include "tables.h"

#include <cstdlib>
#include <fstream>
#include <functional>
#include <thread>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>

using namespace pbt;
using namespace kit;
using casacore::Table;

namespace {

#define HFACET(...)                                             \
  static ::pbt::Register PBT_CAT(reg_, __COUNTER__)([] {        \
    ::pbt::Facet f{__VA_ARGS__};                                \
    f.schedule = true;                                          \
    f.hang = 40;                                                \
    return f;                                                   \
  }())

delay::Plan genPlan(Ctx &c) {
  delay::Plan p;
  p.seed = c.raw();
  const int kind = int(c.below(6));
  p.perMille = c.pick({300u, 100u, 20u, 700u});
  p.mainPerMille = c.pick({0u, 30u, 200u});
  p.maxMicros = c.pick({50u, 300u, 1500u});
  p.spurious = c.pick({0u, 100u, 400u});
  p.processors = c.pick({0u, 1u, 2u, 3u, 5u, 8u, 64u});
  if (kind == 1) p.slowWrite = c.pick({500u, 2000u, 5000u});  // slow disk
  if (kind == 2) p.mainPerMille = 500, p.perMille = 5;        // slow caller
  if (kind == 3) p.mainPerMille = 0, p.perMille = 900;        // slow encoders
  return p;
}
struct Armed {
  explicit Armed(const delay::Plan &p) { delay::arm(p); }
  ~Armed() { delay::disarm(); }
};

void timedHistory(Ctx &c) {
  const delay::Plan p = genPlan(c);
  c.note(p.text()).note("; ");
  Armed a(p);
  HistoryOptions o;
  o.maxOps = 40;
  o.moreBlocks = true;
  history(c, o);
  c.count("delayed operations", delay::operations());
}
HFACET("C15", "history", timedHistory, 340, 500, 20000,
       "random table histories (as C12, more often with more blocks than the write cache holds) while "
       "lock, unlock, wait, notify, read, write and seek operations of encoders and caller are delayed "
       "at random, waits wake up spuriously, writes are slow and 1 to 8 encoding threads are used: all "
       "reads follow the model and everything is in the file at the end; non-trivial as for C12");

// many blocks as fast as possible, all have to be in the file
void burst(Ctx &c) {
  const delay::Plan p = genPlan(c);
  DataOpts o;
  o.layout.maxRows = 60;
  o.layout.big = false;
  o.layout.wide = 0;
  o.layout.minTime = 2;
  o.layout.maxTime = 60;
  o.needData = false;
  Data d = genShape(c, o);
  if (d.l.nChan > 8) d.l.nChan = 8;
  if (d.l.baselines.size() > 6) d.l.baselines.resize(6);
  bool cross = false;
  for (auto &b : d.l.baselines) cross |= b.first != b.second;
  if (!cross) d.l.baselines.push_back({0, 1});
  while (d.l.nTime < 20 && c.chance(3, 4)) {
    d.l.times.push_back(d.l.times.back() + 3);
    d.l.fields.push_back(0);
    d.l.ddids.push_back(0);
    ++d.l.nTime;
  }
  d.nRows = d.l.nRows();
  for (size_t i = 0; i < d.cols.size(); ++i) genColumn(c, d, i);
  c.note(p.text()).note("; ").note(d.text());
  const int mode = int(c.below(kWriteModes));
  const std::string path = c.scratch() + "/a.ms", calm = c.scratch() + "/b.ms";
  uint64_t ops = 0;
  std::vector<Vis> got;
  {
    Armed a(p);
    writeTable(path, d, mode, c.chance(1, 3));
    if (c.chance(1, 2)) {
      // overwrite everything in the reverse order of blocks
      Silence s;
      Table t(path, Table::Update);
      const size_t B = d.l.rowsPerBlock();
      for (size_t b = d.nBlocks(); b-- > 0;)
        for (size_t i = 0; i < d.cols.size(); ++i)
          for (size_t r = b * B; r < std::min(d.nRows, (b + 1) * B); ++r) putCell(t, d, i, r);
      // reading something else at once may not disturb it
      if (c.chance(1, 2) && d.nRows) readCell(t, d, 0, 0);
      c.label("overwritten");
    }
    ops = delay::operations();
    Silence s;
    Table t(path, Table::Old);
    for (size_t i = 0; i < d.cols.size(); ++i) got.push_back(readColumn(t, d, i));
  }
  c.count("delayed operations", ops);
  const ref::File f = ref::parse(ref::slurp(dyscoFile(path)));
  CHECK(f.nBlocks() == d.nBlocks(), "blocks", d.text() << ": the file has " << f.nBlocks() << " blocks, " << d.nBlocks() << " were written");
  // without delays: deterministic columns are the same
  writeTable(calm, d, mode, false);
  Silence s;
  Table t(calm, Table::Old);
  for (size_t i = 0; i < d.cols.size(); ++i) {
    if (d.cols[i].weight) {
      checkWeightColumn(c, d, i, got[i], "with delays");
      const Vis want = readColumn(t, d, i);
      for (size_t r = 0; r < d.nRows; ++r)
        CHECK(identical(want[r], got[i][r]), "not-deterministic",
              d.text() << ": weights of row " << r << " differ from those written without delays");
    } else {
      checkColumnAccuracy(c, d, i, f, got[i], "with delays");
    }
  }
  if (d.nBlocks() > 2 && (ops > 0 || !delay::available())) c.nontrivial();
}
HFACET("C15", "burst", burst, 340, 500, 20000,
       "generated tables with up to 60 small blocks written (and overwritten in reverse order of "
       "blocks) at once under random delays and numbers of encoding threads: all blocks are in the "
       "file, every value is right, weights equal those written without delays; non-trivial: more than "
       "two blocks and at least one delayed operation");

// A static seed gives the same file whatever the timing.
void sameBytes(Ctx &c) {
  const delay::Plan p = genPlan(c);
  DataOpts o;
  o.layout.maxRows = 60;
  o.layout.big = false;
  o.layout.wide = 0;
  o.layout.minTime = 2;
  o.layout.maxTime = 30;
  o.needData = false;
  o.maxData = 3;
  Data d = genShape(c, o);
  d.k.staticSeed = true;
  if (d.l.nChan > 8) d.l.nChan = 8;
  d.nRows = d.l.nRows();
  for (size_t i = 0; i < d.cols.size(); ++i) genColumn(c, d, i);
  c.note(p.text()).note("; ").note(d.text());
  const int mode = int(c.below(kWriteModes));
  const std::string path = c.scratch() + "/a.ms", calm = c.scratch() + "/b.ms";
  {
    Armed a(p);
    writeTable(path, d, mode, false);
    c.count("delayed operations", delay::operations());
    if (delay::operations() > 0) c.nontrivial();
  }
  writeTable(calm, d, mode, false);
  const std::vector<uint8_t> x = ref::slurp(dyscoFile(path)), y = ref::slurp(dyscoFile(calm));
  size_t at = 0;
  while (at < x.size() && at < y.size() && x[at] == y[at]) ++at;
  CHECK(x == y, "not-deterministic", d.text() << ": files of " << x.size() << " and " << y.size()
                                              << " bytes, written with a static seed with and without delays, differ at byte " << at);
}
HFACET("C15", "identical", sameBytes, 320, 900, 10000,
       "tables with a static seed written with and without random delays: the same bytes; non-trivial: "
       "at least one delayed operation");

// ---- C26: several tables at the same time
// Every thread uses a table of its own; the tables are opened and closed by
// one thread, as casacore requires.
void tables(Ctx &c, bool concurrent) {
  const delay::Plan p = genPlan(c);
  const size_t n = size_t(c.range(2, 4));
  std::vector<Data> d;
  std::vector<int> order;
  for (size_t k = 0; k < n; ++k) {
    DataOpts o;
    o.layout.maxRows = 40;
    o.layout.big = false;
    o.layout.wide = 0;
    o.layout.minTime = 1;
    o.layout.maxTime = 12;
    o.needData = false;
    o.maxData = 2;
    Data x = genShape(c, o);
    if (x.l.nChan > 16) x.l.nChan = 16;
    if (k && c.chance(1, 2)) {  // tables that differ in one setting only
      const int same = int(c.below(4));
      x.k = d[0].k;
      if (same == 1) x.k.dist = ref::Dist(c.below(4)), x.k.nu = 4.5, x.k.trunc = 2.5;
      if (same == 2) x.k.norm = c.pick({ref::AF, ref::RF, ref::Row});
      if (same == 3) x.k.dataBits = c.pick({2, 3, 4, 6, 8, 10, 12, 16});
    }
    x.nRows = x.l.nRows();
    for (size_t i = 0; i < x.cols.size(); ++i) genColumn(c, x, i);
    d.push_back(std::move(x));
    order.push_back(int(c.below(2)));
  }
  const uint64_t seed = c.raw();
  std::string when = concurrent ? "written in " : "written alternately, ";
  when += std::to_string(n) + (concurrent ? " threads" : " tables");
  c.note(when);
  for (size_t k = 0; k < n; ++k) c.note(k ? " | " : ": ").note(d[k].text());
  auto path = [&](size_t k) { return c.scratch() + "/" + std::to_string(k) + ".ms"; };
  // one step of the writer: a row in all columns, or a row of one column
  auto cellsOf = [&](size_t k) {
    std::vector<std::pair<size_t, size_t>> v;
    const size_t B = d[k].l.rowsPerBlock();
    for (size_t b = 0; b * B < d[k].nRows; ++b) {
      const size_t end = std::min(d[k].nRows, (b + 1) * B);
      if (order[k])
        for (size_t i = 0; i < d[k].cols.size(); ++i)
          for (size_t r = b * B; r < end; ++r) v.emplace_back(i, r);
      else
        for (size_t r = b * B; r < end; ++r)
          for (size_t i = 0; i < d[k].cols.size(); ++i) v.emplace_back(i, r);
    }
    return v;
  };
  std::vector<std::string> errors(n);
  auto guarded = [&](size_t k, const std::function<void()> &f) {
    try {
      f();
    } catch (std::exception &e) {
      errors[k] = e.what();
    }
  };
  auto run = [&](const std::function<size_t(size_t)> &steps, const std::function<void(size_t, size_t)> &step) {
    if (concurrent) {
      std::vector<std::thread> threads;
      for (size_t k = 0; k < n; ++k)
        threads.emplace_back([&, k] {
          guarded(k, [&] {
            const size_t m = steps(k);
            for (size_t q = 0; q < m; ++q) step(k, q);
          });
        });
      for (auto &t : threads) t.join();
    } else {
      pbt::Expand e(seed);
      std::vector<size_t> at(n, 0), alive;
      for (size_t k = 0; k < n; ++k)
        if (steps(k)) alive.push_back(k);
      while (!alive.empty()) {
        const size_t a = e.below(uint32_t(alive.size())), k = alive[a];
        const size_t many = 1 + e.below(20);
        guarded(k, [&] {
          for (size_t q = 0; q < many && at[k] < steps(k); ++q) step(k, at[k]++);
        });
        if (!errors[k].empty()) return;
        if (at[k] >= steps(k)) alive.erase(alive.begin() + ssize_t(a));
      }
    }
  };
  std::vector<std::vector<std::pair<size_t, size_t>>> cells;
  for (size_t k = 0; k < n; ++k) cells.push_back(cellsOf(k));
  auto count = [&](size_t k) { return cells[k].size(); };
  std::vector<std::vector<Vis>> early(n), got(n);
  for (size_t k = 0; k < n; ++k) {
    early[k].resize(d[k].cols.size());
    got[k].resize(d[k].cols.size());
    for (auto &v : early[k]) v.resize(d[k].nRows);
    for (auto &v : got[k]) v.resize(d[k].nRows);
  }
  uint64_t ops = 0;
  {
    Silence quiet;
    Armed a(p);
    {
      std::vector<Table> t;
      for (size_t k = 0; k < n; ++k) t.push_back(createTable(path(k), d[k].l, d[k].k, d[k].cols, d[k].nRows));
      run(count, [&](size_t k, size_t q) { putCell(t[k], d[k], cells[k][q].first, cells[k][q].second); });
      // other rows than the last block are read from the file
      run(count, [&](size_t k, size_t q) {
        const auto &x = cells[k][q];
        if (q % 3 == 0) early[k][x.first][x.second] = readCell(t[k], d[k], x.first, x.second);
      });
    }
    std::vector<Table> t;
    for (size_t k = 0; k < n; ++k) t.emplace_back(path(k), Table::Old);
    run(count, [&](size_t k, size_t q) {
      const auto &x = cells[k][q];
      got[k][x.first][x.second] = readCell(t[k], d[k], x.first, x.second);
    });
    ops = delay::operations();
  }
  c.count("delayed operations", ops);
  for (size_t k = 0; k < n; ++k)
    CHECK(errors[k].empty(), "exception", when << ": table " << k << " (" << d[k].text() << "): " << errors[k]);
  Silence quiet;
  for (size_t k = 0; k < n; ++k) {
    const std::string w = when + ", table " + std::to_string(k);
    const ref::File f = ref::parse(ref::slurp(dyscoFile(path(k))));
    Table t(path(k), Table::Old);
    for (size_t i = 0; i < d[k].cols.size(); ++i) {
      const Vis alone = readColumn(t, d[k], i);
      for (size_t r = 0; r < d[k].nRows; ++r)
        CHECK(identical(alone[r], got[k][i][r]), "read",
              w << " (" << d[k].text() << "): column " << d[k].cols[i].name << " row " << r
                << " has other values when it is read together with other tables");
      if (d[k].cols[i].weight)
        checkWeightColumn(c, d[k], i, got[k][i], w);
      else if (f.nBlocks())
        checkColumnAccuracy(c, d[k], i, f, got[k][i], w);
      // values read before closing; the rows of the last block may be unencoded
      const size_t B = d[k].l.rowsPerBlock();
      if (d[k].nRows > 0)
        for (size_t r = 0; r < (d[k].nRows - 1) / B * B; ++r)
          if (!early[k][i][r].empty())
            CHECK(identical(alone[r], early[k][i][r]), "read",
                  w << " (" << d[k].text() << "): column " << d[k].cols[i].name << " row " << r
                    << " has other values after it is opened again");
    }
  }
  c.nontrivial();
}
void tablesTogether(Ctx &c) { tables(c, true); }
void tablesAlternately(Ctx &c) { tables(c, false); }
HFACET("C26", "threads", tablesTogether, 340, 400, 12000,
       "2-4 tables with equal or different settings, opened by one thread and written and read by a "
       "thread each, with random delays: every value is right in every table, and is the same when the "
       "table is read alone; all cases are non-trivial");
HFACET("C26", "alternately", tablesAlternately, 340, 400, 12000,
       "2-4 tables written and read by one thread that changes between them at random: as for threads");

// ---- the same under the thread sanitizer, in another program
void sanitized(Ctx &c, const std::string &property, const std::string &facet) {
  const char *bin = getenv("VP_BIN_TSAN");
  CHECK(bin != nullptr, "setup", "no thread sanitizer program");
  const std::string gen = c.scratch() + "/genome", log = c.scratch() + "/log";
  {
    std::ofstream g(gen);
    for (int i = 0; i < 340; ++i) g << c.raw() << ' ';
  }
  const pid_t pid = fork();
  if (pid == 0) {
    const int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    setenv("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1", 1);
    setenv("TMPDIR", c.scratch().c_str(), 1);
    execl(bin, bin, "--genome", gen.c_str(), "--property", property.c_str(), "--facet", facet.c_str(), (char *)nullptr);
    _exit(98);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  std::ifstream i(log);
  std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
  c.note(facet).note(": ").note(s.substr(0, 300));
  const size_t w = s.find("WARNING: ThreadSanitizer");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    if (s.find("NONTRIVIAL") != std::string::npos) c.nontrivial();
    return;
  }
  CHECK(w == std::string::npos, "race", s.substr(w, 1800));
  CHECK(false, "sanitized-run", "exit status " << st << ": " << s.substr(0, 1500));
}
void tableRaces(Ctx &c) { sanitized(c, "C15", c.chance(1, 2) ? "burst" : "history"); }
void otherTableRaces(Ctx &c) { sanitized(c, "C26", "threads"); }
HFACET("C26", "races", otherTableRaces, 345, 120, 2000,
       "the cases of threads in a program built with the thread sanitizer: no data race between "
       "threads that use different tables");
HFACET("C15", "races", tableRaces, 345, 360, 4000,
       "the history and burst cases in a program built with the thread sanitizer: no data race, no "
       "misuse of a mutex and the same oracles; non-trivial as for these facets");

}  // namespace
