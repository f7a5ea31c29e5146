// Property C24: a process that is killed while it writes.
#include "delay.h"
#include "tables.h"

#include <algorithm>
#include <set>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using namespace kit;
using casacore::Table;

namespace {

// Runs a function in another process, which may be killed. Returns true if it was.
template <typename F>
bool inProcess(Ctx &c, F f) {
  std::cout.flush();
  const pid_t pid = fork();
  CHECK(pid >= 0, "setup", "fork failed");
  if (pid == 0) {
    alarm(60);
    int code = 0;
    try {
      Silence s;
      f();
    } catch (std::exception &e) {
      fprintf(stderr, "%s\n", e.what());
      code = 3;
    }
    _exit(code);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) return true;
  CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "writer",
        "the writing process ended with status " << status << " before it was killed");
  return false;
}

struct When {
  uint64_t writes;
  size_t bytes;
};
// the moment at which the process is killed
When genWhen(Ctx &c, size_t expected) {
  When w;
  w.writes = c.below(uint32_t(expected + 3));
  const int part = int(c.below(4));
  w.bytes = part == 0 ? 0 : part == 1 ? 1 + c.below(64) : part == 2 ? 1 + c.below(4000) : size_t(1) << 30;
  c.note("killed at write ").note(w.writes).note(" after ").note(w.bytes).note(" bytes; ");
  return w;
}

// What was stored by a session that was closed, is not harmed by one that is killed.
void stored(Ctx &c) {
  DataOpts o;
  o.needData = false;
  o.maxData = 3;
  o.layout.minTime = 1;
  o.layout.maxTime = 14;
  o.layout.maxRows = 300;
  o.layout.big = false;
  o.layout.wide = 0;
  Data d = genShape(c, o);
  for (size_t i = 0; i < d.cols.size(); ++i) genColumn(c, d, i);
  const size_t B = d.l.rowsPerBlock(), all = d.nRows;
  // rows that are added by the session that is killed
  const size_t old = c.chance(1, 2) || d.l.nTime < 2 ? all : std::min(all, B + c.below(uint32_t(all - B + 1)));
  const std::string path = c.scratch() + "/t.ms";
  {
    Data first = d;
    first.nRows = old;
    writeTable(path, first, int(c.below(kWriteModes)), false);
  }
  std::vector<Vis> want;
  Silence s;
  {
    Table t(path);
    for (size_t i = 0; i < d.cols.size(); ++i) want.push_back(readColumn(t, d, i));
  }
  // the operations of the session
  struct Op {
    int kind;
    size_t col, row;
  };
  std::vector<Op> ops;
  std::set<std::pair<size_t, size_t>> touched;
  Expand x(c.raw());
  const size_t n = size_t(c.range(1, 30));
  size_t rows = old, puts = 0;
  for (size_t k = 0; k < n; ++k) {
    Op op{int(x.below(10)), x.below(uint32_t(d.cols.size())), 0};
    if (op.kind == 0 && rows < all) {
      op.row = std::min(all, rows + 1 + x.below(uint32_t(2 * B)));  // grow to
      rows = op.row;
    } else if (op.kind <= 2) {
      op.kind = 1;
      op.row = x.below(uint32_t(rows));  // get
    } else if (op.kind <= 5) {
      op.kind = 2;  // put
      op.row = x.below(uint32_t(rows));
      touched.insert({op.col, op.row / B});
      ++puts;
    } else {
      op.kind = 3;  // put a complete block
      op.row = x.below(uint32_t((rows + B - 1) / B)) * B;
      touched.insert({op.col, op.row / B});
      ++puts;
    }
    ops.push_back(op);
  }
  c.note(d.text()).note(", ").note(old).note(" rows stored, ").note(puts).note(" puts; ");
  // (puts to the same block are often stored by one write)
  const When w = genWhen(c, c.chance(3, 4) ? touched.size() / 2 : puts);
  const bool flush = x.below(4) == 0;
  const bool killedProcess = inProcess(c, [&] {
    Table t(path, Table::Update);
    delay::killAt(w.writes, w.bytes);
    for (const Op &op : ops) {
      if (op.kind == 0) {
        const size_t first = t.nrow();
        t.addRow(casacore::rownr_t(op.row - first));
        fillMeta(t, d.l, first, op.row - first);
        if (flush) t.flush();
      } else if (op.kind == 1)
        readCell(t, d, op.col, op.row);
      else if (op.kind == 2)
        putCell(t, d, op.col, op.row);
      else
        for (size_t r = op.row; r < std::min<size_t>(t.nrow(), op.row + B); ++r) putCell(t, d, op.col, r);
    }
  });
  Table t(path, c.chance(1, 2) ? Table::Old : Table::Update);
  CHECK(t.nrow() >= old && t.nrow() <= all, "row-count", "table has " << t.nrow() << " rows, " << old << " were stored");
  size_t kept = 0;
  for (size_t i = 0; i < d.cols.size(); ++i)
    for (size_t r = 0; r < t.nrow(); ++r) {
      const std::vector<cf> got = readCell(t, d, i, r);
      if (r >= old || touched.count({i, r / B})) continue;
      ++kept;
      c.subEvaluations++;
      CHECK(identical(got, want[i][r]), "harmed",
            "column " << d.cols[i].name << " row " << r << " (block " << r / B
                      << "), stored before, has other values after a process that wrote other blocks was killed");
    }
  // and the table can be used again
  t = Table();
  {
    Table u(path, Table::Update);
    for (auto &p : touched)
      for (size_t r = p.second * B; r < std::min<size_t>(u.nrow(), (p.second + 1) * B); ++r) putCell(u, d, p.first, r);
  }
  t = Table(path);
  const ref::File f = ref::parse(ref::slurp(dyscoFile(path)));
  const size_t complete = std::min<size_t>(t.nrow(), all);
  Data e = d;
  e.nRows = complete;
  for (size_t i = 0; i < d.cols.size(); ++i) {
    const Vis got = readColumn(t, e, i);
    for (auto &p : touched) {
      if (p.first != i || p.second * B >= complete) continue;
      const size_t end = std::min(complete, (p.second + 1) * B);
      if (!d.cols[i].weight) checkColumnAccuracy(c, e, i, f, got, "written again", p.second * B, end);
      else if (end == (p.second + 1) * B) checkWeightColumn(c, e, i, got, "written again", p.second * B, end);
    }
    for (size_t r = 0; r < std::min(old, complete); ++r)
      if (!touched.count({i, r / B}))
        CHECK(identical(got[r], want[i][r]), "harmed-later", "column " << d.cols[i].name << " row " << r
                                                                 << " changed when the table was used again");
  }
  c.label(killedProcess ? "killed" : "ended before it was killed");
  if (killedProcess && kept > 0 && !touched.empty()) c.nontrivial();
}
FACET("C24", "stored", stored, 420, 500, 20000,
      "a stored table is opened by another process that overwrites rows and blocks, reads and adds "
      "rows, and is killed at a random write to the data file, with nothing, a part or all of that "
      "write stored: the table opens, all blocks that were not overwritten have the same values bit "
      "for bit, and the others can be written again; non-trivial: killed, with blocks overwritten "
      "and blocks kept");

// A new table: the blocks that reached the file can be read.
void fresh(Ctx &c) {
  DataOpts o;
  o.maxData = 2;
  o.weight = false;
  o.vis.nonFinite = false;
  o.vis.allowZeroRows = false;
  o.incomplete = false;
  o.layout.minTime = 3;
  o.layout.maxTime = 24;
  o.layout.maxRows = 300;
  o.layout.big = false;
  o.layout.wide = 0;
  Data d = genShape(c, o);
  for (size_t i = 0; i < d.cols.size(); ++i) genColumn(c, d, i, o.vis);
  const size_t B = d.l.rowsPerBlock();
  c.note(d.text()).note("; ");
  const When w = genWhen(c, d.cols.size() * d.l.nTime + 2);
  const std::string path = c.scratch() + "/t.ms";
  const bool byColumn = c.chance(1, 3);
  const bool killedProcess = inProcess(c, [&] {
    Table t = createTable(path, d.l, d.k, d.cols, d.nRows);
    t.flush();  // (the rest of the table is casacore's)
    delay::killAt(w.writes, w.bytes);
    if (byColumn)
      for (size_t i = 0; i < d.cols.size(); ++i)
        for (size_t r = 0; r < d.nRows; ++r) putCell(t, d, i, r);
    else
      for (size_t r = 0; r < d.nRows; ++r)
        for (size_t i = 0; i < d.cols.size(); ++i) putCell(t, d, i, r);
  });
  Silence s;
  std::vector<std::string> files = dyscoFiles(path);
  bool header = files.size() == 1;
  std::string error = "no valid header";
  try {
    Table t(path);
    for (size_t i = 0; i < d.cols.size(); ++i) readCell(t, d, i, 0);
  } catch (std::exception &e) {
    header = false;
    error = e.what();
  }
  if (!header) {
    // The header is stored by the first writes, before any block.
    CHECK(killedProcess && w.writes <= 2, "header",
          "the table cannot be read after its writer was killed at write " << w.writes << ": " << error);
    c.label("killed before the header was stored");
    return;
  }
  const ref::File f = ref::parse(ref::slurp(files[0]));
  const size_t nb = f.rowsPerBlock == 0 || f.blockSize == 0 || f.bytes.size() < f.headerSize
                        ? 0
                        : (f.bytes.size() - f.headerSize) / f.blockSize;
  // every write stores (part of) one block of one column, or the header
  CHECK(nb + 3 + 20 * d.cols.size() >= std::min<size_t>(w.writes / d.cols.size(), d.l.nTime), "not-stored",
        "after " << w.writes << " writes, the file has only " << nb << " blocks");
  Table t(path, c.chance(1, 2) ? Table::Old : Table::Update);
  CHECK(t.nrow() == d.nRows, "row-count", "table has " << t.nrow() << " rows");
  size_t good = 0, incomplete = 0;
  for (size_t i = 0; i < d.cols.size(); ++i) {
    const Vis got = readColumn(t, d, i);
    for (size_t b = 0; b < nb; ++b) {
      // a block that was not written yet is zero; another one could be incomplete:
      // only the one at which the process was killed, and those of other threads
      bool zero = true;
      for (size_t r = b * B; r < (b + 1) * B; ++r)
        for (const cf &v : got[r]) zero = zero && v == cf(0);
      // (values that were written can also be zero)
      if (zero && !(d.k.staticSeed && d.cols.size() == 1)) continue;
      if (zero) {
        const auto begin = f.bytes.begin() + ptrdiff_t(f.headerSize + b * f.blockSize);
        CHECK(std::any_of(begin, begin + ptrdiff_t(f.blockSize), [](unsigned char x) { return x != 0; }), "missing",
              "block " << b << " of " << nb << " is missing");
      }
      if (d.cols.size() > 1 || !d.k.staticSeed)
        if (w.bytes && w.bytes < f.blockSize) {
          // one block can be incomplete; it is found by its bytes
          try {
            checkColumnAccuracy(c, d, i, f, got, "stored", b * B, (b + 1) * B);
            ++good;
          } catch (Failure &) {
            c.label("incomplete block");
            CHECK(++incomplete <= 1, "incomplete", "several blocks are incomplete after one write was interrupted; block " << b << " of column " << i);
          }
          continue;
        }
      checkColumnAccuracy(c, d, i, f, got, "stored by a process that was killed", b * B, (b + 1) * B);
      ++good;
    }
  }
  c.count("blocks", good);
  c.label(killedProcess ? "killed" : "ended before it was killed");
  if (killedProcess && good > 0) c.nontrivial();
}
FACET("C24", "new", fresh, 420, 400, 16000,
      "a process creates a table, flushes it and writes all its rows in time order, and is killed at "
      "a random write to the data file, with nothing, a part or all of that write stored: the table "
      "opens, and the blocks in the file have the values that were written to within a quantization "
      "step; non-trivial: killed when at least one block had been stored");

}  // namespace
