// Properties of files and of storage managers over their life time: C11, C13,
// C14, C16, C17.
#include "tables.h"

#include "dyscostmanerror.h"

#include <casacore/tables/DataMan/DataManInfo.h>
#include <casacore/tables/Tables/TableCopy.h>

#include <fcntl.h>
#include <fstream>
#include <random>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using namespace kit;
using casacore::ArrayColumn;
using casacore::Complex;
using casacore::IPosition;
using casacore::Slicer;
using casacore::Table;
namespace fs = std::filesystem;

namespace {

// ------------------------------------------------------------------ C11
struct RefFile {
  ref::File f;
  std::vector<uint8_t> bytes;
};
// a file by the reference writer, for the table of d (whose settings may differ)
RefFile refFile(Ctx &c, const Data &d, const Config &k, size_t nBlocks) {
  RefFile o;
  ref::File &f = o.f;
  f.name = k.name;
  f.rowsPerBlock = uint32_t(d.l.rowsPerBlock());
  f.antennaCount = uint32_t(d.l.maxAnt() + 1 + c.below(3));
  f.major = 1;
  f.minor = 0;
  f.dataBits = uint8_t(k.dataBits);
  f.weightBits = uint8_t(k.weightBits);
  f.dist = uint8_t(k.dist);
  f.norm = uint8_t(k.norm);
  f.nu = k.nu;
  f.trunc = k.trunc;
  for (auto &col : d.cols) {
    ref::ColumnInfo ci;
    ci.headerSize = 12;
    ci.blockSize = uint32_t(columnSize(f, d.l, col));
    ci.antennaCount = f.antennaCount;
    f.cols.push_back(ci);
  }
  o.bytes = ref::headerBytes(f, c.pick({12u, 0u, 5u, 100u}), uint8_t(c.below(256)));
  const int kind = int(c.below(4));
  const double mag = c.pick({1.0, 1e-6, 1e4});
  Expand e(c.raw());
  auto scale = [&]() -> float {
    switch (kind) {
      case 0: return float(mag * (0.1 + e.unit()));
      case 1: return float(mag * std::pow(10.0, 6 * e.unit() - 3));
      case 2: return float(mag * e.sym());
      default: return e.below(4) == 0 ? 0.0f : float(mag * e.unit());
    }
  };
  auto floats = [&](size_t n) {
    for (size_t i = 0; i < n; ++i) {
      const float x = scale();
      const uint8_t *p = reinterpret_cast<const uint8_t *>(&x);
      o.bytes.insert(o.bytes.end(), p, p + 4);
    }
  };
  auto symbols = [&](size_t n, unsigned bits) {
    const size_t at = o.bytes.size();
    o.bytes.resize(at + ref::packedSize(n, bits), 0);
    for (size_t i = 0; i < n; ++i) {
      const uint32_t top = (1u << bits) - 1;
      const uint32_t s = e.below(8) == 0 ? (e.below(2) ? top : e.below(2) ? 0 : top - 1) : e.below(top + 1);
      ref::putSymbol(&o.bytes[at], i, bits, s);
    }
  };
  const size_t rows = f.rowsPerBlock;
  for (size_t b = 0; b < nBlocks; ++b)
    for (auto &col : d.cols)
      if (col.weight) {
        const float m = float(std::fabs(scale()));
        const uint8_t *p = reinterpret_cast<const uint8_t *>(&m);
        o.bytes.insert(o.bytes.end(), p, p + 4);
        symbols(rows * d.l.nChan, k.weightBits);
      } else {
        floats(ref::dataMetaCount(k.norm, rows, d.l.nPol, d.l.nChan, f.antennaCount));
        symbols(rows * d.l.visPerRow() * 2, k.dataBits);
      }
  f.bytes = o.bytes;
  return o;
}

// a table without values
void emptyTable(const std::string &path, const Data &d) {
  Silence s;
  Table t = createTable(path, d.l, d.k, d.cols, d.nRows);
}
void checkDecoded(Ctx &c, const Data &d, const ref::File &f, size_t col, size_t row, const std::vector<cf> &got,
                  std::map<std::pair<size_t, size_t>, BlockValues> &cache, const std::string &txt) {
  const size_t B = f.rowsPerBlock;
  const auto key = std::make_pair(col, row / B);
  if (!cache.count(key)) cache[key] = decodeBlock(f, d.l, d.cols, col, row / B);
  const BlockValues &v = cache[key];
  const size_t r = row % B;
  for (size_t s = 0; s < d.l.visPerRow(); ++s) {
    c.subEvaluations++;
    CHECK(sameValue(v.re[r][s], got[s].real(), v.factor[r][s]) && sameValue(v.im[r][s], got[s].imag(), v.factor[r][s]),
          "value", txt << ": column " << d.cols[col].name << " row " << row << " sample " << s << " reads " << got[s]
                       << ", the bytes mean (" << v.re[r][s] << "," << v.im[r][s] << ")");
  }
}

void foreignFile(Ctx &c) {
  DataOpts o;
  o.needData = false;
  o.maxData = 3;
  Data d = genShape(c, o);
  Config k = genConfig(c);
  k.nu = c.pick({1.0, 2.5, 4.0, 30.0, 0.7});
  k.trunc = c.pick({2.5, 0.5, 3.5, 6.0});
  k.name = c.pick<const char *>({"DyscoStMan", "", "Another name", "x"});
  emptyTable(c.scratch() + "/t.ms", d);
  const RefFile rf = refFile(c, d, k, d.nBlocks());
  const std::string file = dyscoFile(c.scratch() + "/t.ms");
  ref::spew(file, rf.bytes);
  const std::string txt = "table created with " + d.text() + ", file with " + k.text();
  c.note(txt);
  Silence s;
  std::map<std::pair<size_t, size_t>, BlockValues> cache;
  {
    Table t(c.scratch() + "/t.ms", c.chance(1, 2) ? Table::Old : Table::Update);
    if (c.chance(1, 2)) {
      for (size_t i = 0; i < d.cols.size(); ++i)
        for (size_t r = 0; r < d.nRows; ++r) checkDecoded(c, d, rf.f, i, r, readCell(t, d, i, r), cache, txt);
    } else {
      Expand e(c.raw());
      for (size_t n = 0; n < 2 * d.nRows; ++n) {
        const size_t i = e.below(uint32_t(d.cols.size())), r = e.below(uint32_t(d.nRows));
        checkDecoded(c, d, rf.f, i, r, readCell(t, d, i, r), cache, txt);
      }
    }
  }
  CHECK(ref::slurp(file) == rf.bytes, "file-changed", txt << ": reading the file changed it");
  c.nontrivial();
}
TFACET("C11", "read", foreignFile, 160, 1000, 40000,
      "files by the reference writer with random settings, scale factors (any sign and zero), "
      "symbols (including the NaN symbol and extremes), names, unused header space, under a table "
      "created with other settings: all values equal those of the reference decoder and the file "
      "stays the same; every case is non-trivial");

void otherVersion(Ctx &c) {
  DataOpts o;
  o.needData = false;
  o.maxData = 3;
  Data d = genShape(c, o);
  Config k = genConfig(c);
  emptyTable(c.scratch() + "/t.ms", d);
  const std::string file = dyscoFile(c.scratch() + "/t.ms");
  const bool version = c.chance(1, 2);
  unsigned major = 1, minor = 0;
  Data g = d;
  if (version) {
    switch (c.below(4)) {
      case 0: minor = c.pick({1u, 2u, 255u, 256u, 65535u}); break;
      case 1: major = c.pick({0u, 2u, 3u, 256u, 257u, 65535u}); break;
      default:
        major = c.below(65536);
        minor = c.below(65536);
        if (major == 1 && minor == 0) major = 2;
    }
  } else {
    if (c.chance(1, 2) && g.cols.size() > 1) g.cols.pop_back();
    else g.cols.push_back({"EXTRA", false});
  }
  RefFile rf = refFile(c, g, k, c.below(3));
  if (version) {
    rf.f.major = uint16_t(major);
    rf.f.minor = uint16_t(minor);
    // replace in the bytes: right before the bit rates
    const size_t at = 7 * 4 + rf.f.name.size();
    rf.bytes[at] = uint8_t(major), rf.bytes[at + 1] = uint8_t(major >> 8);
    rf.bytes[at + 2] = uint8_t(minor), rf.bytes[at + 3] = uint8_t(minor >> 8);
  }
  ref::spew(file, rf.bytes);
  c.note(d.text()).note(version ? ", version " : ", columns ").note(version ? major : g.cols.size()).note(".").note(minor);
  Silence s;
  bool thrown = false;
  try {
    Table t(c.scratch() + "/t.ms", c.chance(1, 2) ? Table::Old : Table::Update);
    for (size_t i = 0; i < d.cols.size(); ++i)
      if (d.nRows) readCell(t, d, i, 0);
  } catch (std::exception &) {
    thrown = true;
  }
  CHECK(thrown, "not-refused", d.text() << ": file with version " << major << "." << minor << " and " << g.cols.size()
                                        << " columns was accepted");
  CHECK(ref::slurp(file) == rf.bytes, "file-changed", "refusing the file changed it");
  c.nontrivial();
}
TFACET("C11", "refuse", otherVersion, 120, 500, 15000,
      "reference files with random other versions, or with one column more or less than the "
      "table: opening is refused with an exception and the file stays as it was; every case is "
      "non-trivial");

// ------------------------------------------------------------------ the released storage manager
// casacore has a Dysco storage manager of its own: a released implementation
// of the same format, which is used by a helper program.
bool casaDysco(Ctx &c, const std::vector<std::string> &args, std::string &log) {
  const char *bin = getenv("VP_BIN_CASADYSCO");
  CHECK(bin != nullptr, "setup", "no helper program");
  const std::string out = c.scratch() + "/helper.log";
  std::vector<std::string> a{bin};
  a.insert(a.end(), args.begin(), args.end());
  std::vector<char *> argv;
  for (auto &x : a) argv.push_back(x.data());
  argv.push_back(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int fd = open(out.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    execv(bin, argv.data());
    _exit(98);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  const std::vector<uint8_t> b = ref::slurp(out);
  log.assign(b.begin(), b.end());
  if (WIFSIGNALED(st)) log += " (signal " + std::to_string(WTERMSIG(st)) + ")";
  CHECK(!(WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 2)), "setup", "could not run the helper program");
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// values that the released storage manager reads
std::vector<Vis> releasedValues(Ctx &c, const Data &d, const std::string &txt) {
  std::string log;
  const std::string file = c.scratch() + "/values";
  CHECK(casaDysco(c, {"dump", c.scratch() + "/t.ms", file}, log), "not-readable",
        txt << ": the released storage manager can not read the table: " << log);
  const std::vector<uint8_t> b = ref::slurp(file);
  // (the order of the columns in the table description is alphabetical)
  std::vector<size_t> order(d.cols.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  std::vector<Vis> v(d.cols.size());
  {
    Silence s;
    Table t(c.scratch() + "/t.ms");
    const casacore::Vector<casacore::String> names = t.tableDesc().columnNames();
    std::vector<size_t> at;
    for (auto &n : names)
      for (size_t i = 0; i < d.cols.size(); ++i)
        if (d.cols[i].name == n) at.push_back(i);
    order = at;
  }
  size_t pos = 0, total = 0;
  for (auto &col : d.cols) total += d.nRows * d.l.visPerRow() * (col.weight ? 4 : 8);
  CHECK(b.size() == total && order.size() == d.cols.size(), "setup", "the helper program gave " << b.size() << " bytes");
  for (size_t i : order) {
    v[i].resize(d.nRows);
    for (auto &row : v[i])
      for (size_t q = 0; q < d.l.visPerRow(); ++q) {
        float x[2] = {0, 0};
        const size_t n = d.cols[i].weight ? 4 : 8;
        memcpy(x, &b[pos], n);
        pos += n;
        row.push_back(cf(x[0], x[1]));
      }
  }
  return v;
}
void checkReleased(Ctx &c, const Data &d, const std::vector<Vis> &theirs, const std::vector<Vis> &ours, const std::string &txt) {
  auto same = [](float a, float b) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(a - b) <= 2e-6f * std::max(std::fabs(a), std::fabs(b)) + 1e-37f;
  };
  for (size_t i = 0; i < ours.size(); ++i)
    for (size_t r = 0; r < d.nRows; ++r)
      for (size_t q = 0; q < d.l.visPerRow(); ++q) {
        c.subEvaluations++;
        const cf a = theirs[i][r][q], b = ours[i][r][q];
        CHECK(same(a.real(), b.real()) && same(a.imag(), b.imag()), "other-than-released",
              txt << ": column " << d.cols[i].name << " row " << r << " sample " << q << " is read as " << b
                  << ", and by the released storage manager as " << a);
      }
}
Data genForReleased(Ctx &c) {
  DataOpts o;
  o.needData = false;
  o.maxData = 3;
  o.incomplete = false;  // (errors of the released version)
  o.layout.minTime = 2;
  Data d = genData(c, o);
  return d;
}

void readByReleased(Ctx &c) {
  const Data d = genForReleased(c);
  const std::string path = c.scratch() + "/t.ms";
  writeTable(path, d, int(c.below(kWriteModes)), c.chance(1, 3));
  c.note(d.text());
  const std::vector<Vis> theirs = releasedValues(c, d, d.text());
  std::vector<Vis> ours;
  Silence s;
  Table t(path);
  for (size_t i = 0; i < d.cols.size(); ++i) ours.push_back(readColumn(t, d, i));
  checkReleased(c, d, theirs, ours, d.text());
  c.nontrivial();
}
TFACET("C10", "released", readByReleased, 300, 600, 12000,
      "tables of random data, settings and ways of writing, read by the storage manager that is "
      "part of the installed casacore (an earlier release): it gives the same values; every case "
      "is non-trivial");

void writtenByReleased(Ctx &c) {
  const Data d = genForReleased(c);
  const std::string path = c.scratch() + "/t.ms";
  c.note(d.text());
  {
    Silence s;
    Table t = createTable(path, d.l, d.k, {}, d.nRows);
  }
  {
    std::ofstream o(c.scratch() + "/spec", std::ios::binary);
    const char *dist[] = {"Gaussian", "Uniform", "StudentT", "TruncatedGaussian"};  // (its name for it)
    const char *norm[] = {"AF", "RF", "Row"};
    o << d.k.name << '\n' << d.k.dataBits << ' ' << d.k.weightBits << ' ' << dist[d.k.dist] << ' ' << norm[d.k.norm] << ' '
      << d.k.nu << ' ' << d.k.trunc << ' ' << d.l.nPol << ' ' << d.l.nChan << ' ' << d.cols.size();
    for (auto &col : d.cols) o << ' ' << col.name << ' ' << int(col.weight);
    o << '\n';
    for (size_t r = 0; r < d.nRows; ++r)
      for (size_t i = 0; i < d.cols.size(); ++i)
        if (d.cols[i].weight)
          o.write(reinterpret_cast<const char *>(d.w[i][r].data()), ssize_t(d.w[i][r].size() * sizeof(float)));
        else
          o.write(reinterpret_cast<const char *>(d.vis[i][r].data()), ssize_t(d.vis[i][r].size() * sizeof(cf)));
  }
  std::string log;
  CHECK(casaDysco(c, {"fill", path, c.scratch() + "/spec"}, log), "setup",
        d.text() << ": the released storage manager could not write the table: " << log);
  const std::string file = dyscoFile(path);
  const std::vector<uint8_t> before = ref::slurp(file);
  const std::vector<Vis> theirs = releasedValues(c, d, d.text());
  Silence s;
  std::vector<Vis> ours;
  {
    Table t(path, c.chance(1, 2) ? Table::Old : Table::Update);
    for (size_t i = 0; i < d.cols.size(); ++i) ours.push_back(readColumn(t, d, i));
  }
  checkReleased(c, d, theirs, ours, d.text());
  CHECK(ref::slurp(file) == before, "file-changed", d.text() << ": reading the file changed it");
  c.nontrivial();
}
TFACET("C11", "released", writtenByReleased, 300, 300, 12000,
      "tables of random data and settings that are written by the storage manager of the installed "
      "casacore (an earlier release): the same values are read, and the file stays as it was; every "
      "case is non-trivial");

// ------------------------------------------------------------------ C13
bool inChild(Ctx &c, const std::function<void()> &f, std::string &msg, bool unprivileged) {
  (void)c;
  int fd[2];
  if (pipe(fd)) return true;
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    std::string m;
    int rc = 0;
    if (unprivileged && (setgid(65534) != 0 || setuid(65534) != 0)) _exit(3);
    try {
      f();
    } catch (std::exception &e) {
      m = e.what();
      rc = 1;
    }
    if (write(fd[1], m.data(), m.size()) < 0) rc = 1;
    _exit(rc);
  }
  close(fd[1]);
  char buf[600];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) msg.append(buf, size_t(n));
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
    msg = "skip";
    return true;
  }
  if (!WIFEXITED(st)) msg += " (crashed)";
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

// random reads, compared with a first sequential read
void randomReads(Ctx &c, Table &t, const Data &d, const std::vector<Vis> &truth, uint64_t seed, size_t n) {
  Expand e(seed);
  auto expect = [&](size_t i, size_t r, const std::vector<cf> &got, const char *how) {
    c.subEvaluations++;
    CHECK(identical(got, truth[i][r]), "other-value",
          d.text() << ": column " << d.cols[i].name << " row " << r << " read with " << how
                   << " differs from the value read before");
  };
  for (size_t step = 0; step < n; ++step) {
    const size_t i = e.below(uint32_t(d.cols.size())), r = e.below(uint32_t(d.nRows));
    switch (e.below(5)) {
      case 0:
      case 1:
        expect(i, r, readCell(t, d, i, r), "get");
        break;
      case 2: {  // range of rows
        const size_t m = 1 + e.below(uint32_t(std::min<size_t>(d.nRows - r, 2 * d.l.rowsPerBlock())));
        const Slicer s(IPosition(1, ssize_t(r)), IPosition(1, ssize_t(m)));
        std::vector<cf> v;
        if (d.cols[i].weight)
          for (float x : ArrayColumn<float>(t, d.cols[i].name).getColumnRange(s)) v.push_back(cf(x, 0));
        else
          for (Complex x : ArrayColumn<Complex>(t, d.cols[i].name).getColumnRange(s)) v.push_back(x);
        const size_t N = d.l.visPerRow();
        for (size_t q = 0; q < m; ++q)
          expect(i, r + q, std::vector<cf>(v.begin() + ssize_t(q * N), v.begin() + ssize_t((q + 1) * N)), "getColumnRange");
        break;
      }
      case 3: {  // part of a cell
        const size_t p = e.below(uint32_t(d.l.nPol)), ch = e.below(uint32_t(d.l.nChan));
        const size_t np = 1 + e.below(uint32_t(d.l.nPol - p)), nc = 1 + e.below(uint32_t(d.l.nChan - ch));
        const Slicer s(IPosition(2, ssize_t(p), ssize_t(ch)), IPosition(2, ssize_t(np), ssize_t(nc)));
        std::vector<cf> v, want;
        if (d.cols[i].weight)
          for (float x : ArrayColumn<float>(t, d.cols[i].name).getSlice(r, s)) v.push_back(cf(x, 0));
        else
          for (Complex x : ArrayColumn<Complex>(t, d.cols[i].name).getSlice(r, s)) v.push_back(x);
        for (size_t a = ch; a < ch + nc; ++a)
          for (size_t b = p; b < p + np; ++b) want.push_back(truth[i][r][a * d.l.nPol + b]);
        CHECK(identical(v, want), "other-value", d.text() << ": part of row " << r << " differs from the value read before");
        break;
      }
      default: {  // the whole column
        std::vector<cf> v;
        if (d.cols[i].weight)
          for (float x : ArrayColumn<float>(t, d.cols[i].name).getColumn()) v.push_back(cf(x, 0));
        else
          for (Complex x : ArrayColumn<Complex>(t, d.cols[i].name).getColumn()) v.push_back(x);
        const size_t N = d.l.visPerRow();
        for (size_t q = 0; q < d.nRows; ++q)
          expect(i, q, std::vector<cf>(v.begin() + ssize_t(q * N), v.begin() + ssize_t((q + 1) * N)), "getColumn");
      }
    }
  }
}

void pureReads(Ctx &c) {
  DataOpts o;
  o.needData = false;
  Data d = genData(c, o);
  // sometimes with rows that are never written
  if (c.chance(1, 3) && d.complete()) {
    const size_t extra = c.below(uint32_t(2 * d.l.rowsPerBlock() + 1));
    Data full = d;
    writeTable(c.scratch() + "/t.ms", d, int(c.below(kWriteModes)), false);
    Silence s;
    Table t(c.scratch() + "/t.ms", Table::Update);
    for (size_t b = 0; b < 3; ++b) {
      d.l.times.push_back(d.l.times.back() + 7);
      d.l.fields.push_back(0);
      d.l.ddids.push_back(0);
    }
    if (extra) {
      t.addRow(casacore::rownr_t(extra));
      fillMeta(t, d.l, d.nRows, extra);
      d.nRows += extra;
    }
    c.label("with unwritten rows");
  } else {
    writeTable(c.scratch() + "/t.ms", d, int(c.below(kWriteModes)), c.chance(1, 3));
  }
  c.note(d.text());
  const std::string file = dyscoFile(c.scratch() + "/t.ms");
  const std::vector<uint8_t> bytes = ref::slurp(file);
  std::vector<Vis> truth;
  Silence s;
  {
    Table t(c.scratch() + "/t.ms");
    for (size_t i = 0; i < d.cols.size(); ++i) truth.push_back(readColumn(t, d, i));
  }
  auto unchanged = [&](const char *when) {
    CHECK(ref::slurp(file) == bytes, "file-changed", d.text() << ": data file changed by " << when);
  };
  unchanged("a sequential read");
  const int opens = c.range(1, 3);
  for (int k = 0; k < opens; ++k) {
    const int how = int(c.below(4));
    const uint64_t seed = c.raw();
    const size_t n = size_t(c.range(5, 60));
    if (how == 0 || how == 1) {
      Table t(c.scratch() + "/t.ms", how ? Table::Update : Table::Old);
      randomReads(c, t, d, truth, seed, n);
      if (how == 1 && c.chance(1, 2)) t.flush(true);
    } else {
      // in another process, for how == 3 without permission to write
      std::string msg;
      if (how == 3) {
        for (fs::path p = c.scratch() + "/t.ms"; p.string().find("vpdysco.") != std::string::npos; p = p.parent_path())
          chmod(p.string().c_str(), 0755);
        for (auto &e : fs::directory_iterator(c.scratch() + "/t.ms")) chmod(e.path().string().c_str(), 0444);
      }
      const bool ok = inChild(
          c,
          [&]() {
            Table t(c.scratch() + "/t.ms", Table::Old);
            Ctx dummy(Genome(), 0, "");
            randomReads(dummy, t, d, truth, seed, n);
          },
          msg, how == 3);
      if (how == 3)
        for (auto &e : fs::directory_iterator(c.scratch() + "/t.ms")) chmod(e.path().string().c_str(), 0644);
      c.label(how == 2 ? "other process" : msg == "skip" ? "read-only (not possible here)" : "read-only file");
      CHECK(ok, "other-process", d.text() << ": reading in another process" << (how == 3 ? " a read-only file" : "")
                                          << ": " << msg);
    }
    unchanged("reading");
  }
  c.nontrivial();
}
TFACET("C13", "reads", pureReads, 320, 700, 24000,
      "tables (some with unwritten rows) opened 1-3 times, read-only and for update, in this and "
      "another process, with and without write permission, with 5-60 random reads (cells, parts, "
      "ranges, columns): every value equals that of the first read bit for bit, file bytes stay "
      "the same; every case is non-trivial");

// ------------------------------------------------------------------ C14
// One column must not notice what happens to the others.
void independence(Ctx &c) {
  DataOpts o;
  o.needData = false;
  o.maxData = 4;
  o.layout.minTime = 1;
  o.layout.maxTime = 8;
  o.layout.maxRows = 200;
  o.layout.big = false;
  o.layout.wide = 0;
  Data d = genShape(c, o);
  if (d.cols.size() == 1) {
    d.cols.push_back({"OTHER", false});
    d.vis.resize(2);
    d.w.resize(2);
  }
  d.k.staticSeed = true;
  for (size_t i = 0; i < d.cols.size(); ++i) genColumn(c, d, i);
  const size_t victim = c.below(uint32_t(d.cols.size())), B = d.l.rowsPerBlock();
  Data e = d;
  for (size_t i = 0; i < d.cols.size(); ++i)
    if (i != victim && c.chance(2, 3)) genColumn(c, e, i);
  c.note(d.text()).note(", column ").note(d.cols[victim].name);
  writeTable(c.scratch() + "/a.ms", d, int(c.below(kWriteModes)), false);
  // the other table: the victim is written in time order, the others in any way
  {
    Silence s;
    Table t = createTable(c.scratch() + "/b.ms", e.l, e.k, e.cols, e.nRows);
    Expand x(c.raw());
    const int missing = int(c.below(4));  // how much of the others is left unwritten
    std::vector<size_t> next(e.cols.size(), 0);
    bool known = false;
    size_t done = 0;
    // first block of the victim
    while (next[victim] < e.nRows || (x.below(12) != 0 && done < 4 * e.nRows * e.cols.size())) {
      ++done;
      const size_t i = next[victim] < e.nRows && x.below(2) ? victim : x.below(uint32_t(e.cols.size()));
      if (i == victim) {
        if (next[i] >= e.nRows) continue;
        putCell(t, e, i, next[i]);
        if (next[i] >= B) known = true;
        next[i]++;
      } else {
        if (!known) {
          // only the first time block may be written
          const size_t r = x.below(uint32_t(std::min(B, e.nRows)));
          if (missing != 3 && x.below(3) != 0) putCell(t, e, i, r);
        } else if (missing != 2 || x.below(8) == 0) {
          const size_t r = x.below(2) ? x.below(uint32_t(e.nRows)) : std::min(next[i]++, e.nRows - 1);
          if (missing == 1 && (r / B) % 2 == 1) continue;
          putCell(t, e, i, r);
        }
      }
      // (reading the victim could make it store a block that is not complete)
      const size_t q = x.below(uint32_t(e.cols.size()));
      if (x.below(5) == 0 && known && q != victim) readCell(t, e, q, x.below(uint32_t(e.nRows)));
    }
  }
  Silence s;
  Table a(c.scratch() + "/a.ms"), b(c.scratch() + "/b.ms", Table::Update);
  const Vis va = readColumn(a, d, victim), vb = readColumn(b, e, victim);
  for (size_t r = 0; r < d.nRows; ++r) {
    c.subEvaluations++;
    CHECK(identical(va[r], vb[r]), "influenced",
            d.text() << ": column " << d.cols[victim].name << " row " << r << " depends on what is written to other columns");
  }
  if (!d.cols[victim].weight) {
    const ref::File fb = ref::parse(ref::slurp(dyscoFile(c.scratch() + "/b.ms")));
    checkColumnAccuracy(c, d, victim, fb, vb, "next to other columns");
  }
  // from now on the values are fixed
  const int rounds = c.range(1, 2);
  for (int k = 0; k < rounds; ++k) {
    Expand x(c.raw());
    for (size_t n = 0; n < 2 * e.nRows; ++n) {
      const size_t i = x.below(uint32_t(e.cols.size()));
      if (i == victim) continue;
      const size_t r = x.below(uint32_t(e.nRows));
      // other values than before
      if (e.cols[i].weight)
        for (float &w : e.w[i][r]) w = float(x.unit());
      else
        for (cf &v : e.vis[i][r]) v = cf(float(x.sym()), float(x.sym()));
      putCell(b, e, i, r);
      if (x.below(4) == 0) {
        const size_t q = x.below(uint32_t(e.nRows));
        c.subEvaluations++;
        CHECK(identical(readCell(b, e, victim, q), vb[q]), "influenced",
              d.text() << ": column " << d.cols[victim].name << " row " << q << " changed by writing to other columns");
      }
    }
    b = Table();
    b = Table(c.scratch() + "/b.ms", Table::Update);
    for (size_t r = 0; r < d.nRows; ++r) {
      c.subEvaluations++;
      CHECK(identical(readCell(b, e, victim, r), vb[r]), "influenced",
            d.text() << ": column " << d.cols[victim].name << " row " << r
                     << " changed by writing to other columns, seen after reopening");
    }
  }
  if (d.nRows > B) c.nontrivial();
}
TFACET("C14", "independent", independence, 420, 500, 16000,
      "2-5 columns; one column is written in time order while the others are written in random "
      "order, partly or not at all, then overwritten at random over 1-2 sessions: that column "
      "has the values it was given and afterwards stays bit for bit the same; non-trivial: more "
      "than one time block");

void removal(Ctx &c) {
  DataOpts o;
  o.needData = false;
  o.maxData = 4;
  o.layout.maxTime = 24;
  Data d = genShape(c, o);
  while (d.cols.size() < 2) {
    d.cols.push_back({"OTHER", false});
    d.vis.resize(2);
    d.w.resize(2);
  }
  d.k.staticSeed = true;
  VisOpts vo;
  for (size_t i = 0; i < d.cols.size(); ++i) genColumn(c, d, i, vo);
  const bool inSession = c.chance(1, 2), partial = c.chance(1, 3);
  const size_t B = d.l.rowsPerBlock();
  std::vector<size_t> upto(d.cols.size(), d.nRows);
  if (partial && d.l.nTime > 1)
    for (size_t i = 1; i < d.cols.size(); ++i)
      if (c.chance(1, 2)) upto[i] = c.below(uint32_t(d.nRows / B + 1)) * B;
  const int pending = int(c.below(3));  // what else happened to the last block
  auto fill = [&](Table &t) {
    for (size_t r = 0; r < d.nRows; ++r)
      for (size_t i = 0; i < d.cols.size(); ++i)
        if (r < upto[i]) putCell(t, d, i, r);
  };
  c.note(d.text()).note(inSession ? ", removal in session" : ", removal after reopening");
  // twin without removal
  {
    Silence s;
    Table a = createTable(c.scratch() + "/a.ms", d.l, d.k, d.cols, d.nRows);
    fill(a);
  }
  std::vector<Vis> want;
  {
    Silence s;
    Table a(c.scratch() + "/a.ms");
    for (size_t i = 0; i < d.cols.size(); ++i) want.push_back(readColumn(a, d, i));
  }
  Silence s;
  Table b = createTable(c.scratch() + "/b.ms", d.l, d.k, d.cols, d.nRows);
  fill(b);
  if (!inSession) {
    b = Table();
    b = Table(c.scratch() + "/b.ms", Table::Update);
    if (pending == 1 && d.nRows) readCell(b, d, 0, d.nRows - 1);
    if (pending == 2)
      for (size_t i = 0; i < d.cols.size(); ++i) readCell(b, d, i, c.below(uint32_t(d.nRows)));
  }
  Data e = d;  // what remains
  auto compare = [&](const char *when, bool final) {
    for (size_t i = 0; i < e.cols.size(); ++i) {
      size_t k = 0;
      while (d.cols[k].name != e.cols[i].name) ++k;
      for (size_t r = 0; r < e.nRows; ++r) {
        c.subEvaluations++;
        const std::vector<cf> got = readCell(b, e, i, r);
        // the first time block may not have been encoded before closing
        std::vector<cf> raw;
        if (inSession && r < B && r < upto[k]) {
          if (d.cols[k].weight)
            for (float x : d.w[k][r]) raw.push_back(cf(x, 0));
          else
            raw = d.vis[k][r];
        }
        CHECK(identical(got, want[k][r]) || (inSession && !final && identical(got, raw)), "changed-by-removal",
              d.text() << ": column " << e.cols[i].name << " row " << r << " changed by removing another column, " << when);
      }
    }
  };
  const int removals = c.range(1, int(std::min<size_t>(3, d.cols.size())));
  std::string removed;
  for (int k = 0; k < removals && !e.cols.empty(); ++k) {
    const size_t at = c.below(3) == 0 ? 0 : c.below(2) ? e.cols.size() - 1 : c.below(uint32_t(e.cols.size()));
    const std::string name = e.cols[at].name;
    removed += " " + name;
    b.removeColumn(name);
    e.cols.erase(e.cols.begin() + ssize_t(at));
    e.vis.erase(e.vis.begin() + ssize_t(at));
    e.w.erase(e.w.begin() + ssize_t(at));
    CHECK(!b.tableDesc().isColumn(name), "not-removed", d.text() << ": column " << name << " still exists");
    if (c.chance(1, 2)) compare("in the same session", false);
    if (c.chance(1, 3)) {
      b = Table();
      b = Table(c.scratch() + "/b.ms", Table::Update);
    }
  }
  c.note(", removed").note(removed);
  compare("before closing", false);
  b = Table();
  if (!e.cols.empty()) {
    const ref::File f = ref::parse(ref::slurp(dyscoFile(c.scratch() + "/b.ms")));
    CHECK(f.columnCount == e.cols.size(), "column-count", d.text() << ": file has " << f.columnCount << " columns");
    b = Table(c.scratch() + "/b.ms", Table::Update);
    compare("after reopening", true);
    std::map<std::pair<size_t, size_t>, BlockValues> cache;
    for (size_t i = 0; i < e.cols.size(); ++i)
      for (size_t r = 0; r < e.nRows; ++r) checkDecoded(c, e, f, i, r, readCell(b, e, i, r), cache, "after removal: " + e.text());
    // and the table can still be written
    Expand x(c.raw());
    const size_t i = x.below(uint32_t(e.cols.size())), blk = x.below(uint32_t(e.nBlocks()));
    const size_t end = std::min(e.nRows, (blk + 1) * B);
    genColumn(c, e, i);
    for (size_t r = blk * B; r < end; ++r) putCell(b, e, i, r);
    b = Table();
    b = Table(c.scratch() + "/b.ms", Table::Update);
    const Vis got = readColumn(b, e, i);
    const ref::File g = ref::parse(ref::slurp(dyscoFile(c.scratch() + "/b.ms")));
    if (e.cols[i].weight) {
      if (end == (blk + 1) * B) checkWeightColumn(c, e, i, got, "written after removal", blk * B, end);
    } else
      checkColumnAccuracy(c, e, i, g, got, "written after removal", blk * B, end);
  } else {
    b = Table(c.scratch() + "/b.ms", Table::Update);
    CHECK(b.nrow() == d.nRows, "row-count", "rows lost");
  }
  if (d.nRows > B) c.nontrivial();
}
TFACET("C14", "removal", removal, 480, 500, 16000,
      "2-5 columns (some only partly written), 1-3 of them removed in the session that wrote them "
      "(values still buffered or in flight) or after reopening: the others stay bit for bit equal "
      "to a twin table without removal, before closing, after reopening and in the file, and can "
      "be written; non-trivial: more than one time block");

// Several storage managers in one table, with settings and shapes of their own.
void managers(Ctx &c) {
  DataOpts o;
  o.needData = false;
  o.maxData = 2;
  o.layout.minTime = 1;
  o.layout.maxTime = 10;
  o.layout.maxRows = 200;
  o.layout.big = false;
  o.layout.wide = 0;
  const size_t n = size_t(c.range(2, 3));
  std::vector<Data> m;
  bool weight = false;
  const char *names[] = {"DyscoData", "second", "D"};
  for (size_t i = 0; i < n; ++i) {
    Data d = genShape(c, o);
    if (i) {  // the same rows
      Layout l = m[0].l;
      l.nPol = d.l.nPol;
      l.nChan = std::min<size_t>(d.l.nChan, 12);
      d.l = l;
      d.nRows = m[0].nRows;
    }
    d.k.staticSeed = true;
    d.k.name = names[i];
    for (auto &col : d.cols) {
      if (weight) col.weight = false;  // there is one column of weights
      if (col.weight) weight = true;
      else col.name = "DATA" + std::to_string(&col - d.cols.data()) + "_" + std::to_string(i);
    }
    for (size_t x = 0; x < d.cols.size(); ++x) genColumn(c, d, x);
    m.push_back(d);
  }
  const size_t nRows = m[0].nRows, B = m[0].l.rowsPerBlock();
  c.note(n).note(" managers:");
  for (auto &d : m) c.note(" [").note(d.text()).note("]");
  auto addTo = [&](Table &t, const Data &d) {
    casacore::TableDesc td("", casacore::TableDesc::Scratch);
    const casacore::IPosition shape(2, ssize_t(d.l.nPol), ssize_t(d.l.nChan));
    for (const ColumnSpec &s : d.cols) {
      const int opt = casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape;
      if (s.weight) td.addColumn(casacore::ArrayColumnDesc<float>(s.name, "", "DyscoStMan", d.k.name, shape, opt));
      else td.addColumn(casacore::ArrayColumnDesc<casacore::Complex>(s.name, "", "DyscoStMan", d.k.name, shape, opt));
    }
    auto man = makeStMan(d.k);
    t.addColumn(td, *man);
  };
  // every manager on its own
  Silence s;
  std::vector<std::vector<unsigned char>> want;
  std::vector<std::vector<Vis>> values;
  for (size_t i = 0; i < n; ++i) {
    const std::string path = c.scratch() + "/a" + std::to_string(i) + ".ms";
    writeTable(path, m[i], int(c.below(kWriteModes)), false);
    want.push_back(ref::slurp(dyscoFile(path, &m[i].k.name)));
    Table t(path);
    values.emplace_back();
    for (size_t x = 0; x < m[i].cols.size(); ++x) values[i].push_back(readColumn(t, m[i], x));
  }
  const auto original = want;
  const auto firstValues = values;
  // together, the columns advancing at random
  const std::string path = c.scratch() + "/t.ms";
  const bool late = c.chance(1, 2);  // the last manager is added when others have been written
  Expand x(c.raw());
  {
    Table t = createTable(path, m[0].l, m[0].k, {}, nRows);
    for (size_t i = 0; i + (late ? 1 : 0) < n; ++i) addTo(t, m[i]);
    struct Todo {
      size_t man, col, row;
    };
    std::vector<Todo> todo;
    auto start = [&](size_t i) {
      for (size_t k = 0; k < m[i].cols.size(); ++k) todo.push_back({i, k, 0});
    };
    for (size_t i = 0; i + (late ? 1 : 0) < n; ++i) start(i);
    bool added = !late;
    size_t steps = 0;
    while (!todo.empty() || !added) {
      if (!added && (todo.empty() || (steps > nRows / 2 && x.below(10) == 0))) {
        addTo(t, m[n - 1]);
        start(n - 1);
        added = true;
      }
      const size_t at = x.below(uint32_t(todo.size()));
      Todo &w = todo[at];
      for (size_t k = 1 + x.below(x.below(4) == 0 ? uint32_t(2 * B) : 3); k > 0 && w.row < nRows; --k, ++steps)
        putCell(t, m[w.man], w.col, w.row++);
      if (w.row == nRows) todo.erase(todo.begin() + ssize_t(at));
    }
  }
  auto whole = [&](size_t i) { return ref::slurp(dyscoFile(path, &m[i].k.name)); };
  for (size_t i = 0; i < n; ++i) {
    const std::vector<unsigned char> got = whole(i);
    c.subEvaluations += got.size();
    CHECK(got == want[i], "influenced-by-manager",
          "the file of " << m[i].k.name << " differs from that of the same manager alone in a table (" << got.size() << " and "
                         << want[i].size() << " bytes)");
  }
  // sessions in which one of them is used
  std::vector<bool> removed(n, false);
  const int sessions = c.range(1, 3);
  for (int k = 0; k < sessions; ++k) {
    const size_t v = c.below(uint32_t(n));
    const int what = int(c.below(3));
    {
      Table t(path, Table::Update);
      for (size_t i = 0; i < n; ++i) {
        if (removed[i]) continue;
        const size_t col = x.below(uint32_t(m[i].cols.size())), r = x.below(uint32_t(nRows));
        c.subEvaluations++;
        CHECK(identical(readCell(t, m[i], col, r), values[i][col][r]), "value-changed",
              m[i].k.name << " column " << m[i].cols[col].name << " row " << r << " differs from that in a table of its own");
      }
      if (removed[v]) {
        addTo(t, m[v]);
        for (size_t col = 0; col < m[v].cols.size(); ++col)
          for (size_t r = 0; r < nRows; ++r) putCell(t, m[v], col, r);
        removed[v] = false;
        want[v] = original[v];
        values[v] = firstValues[v];
        c.label("removed and added again");
      } else if (what == 0) {
        // (all columns: the manager disappears)
        if (c.chance(1, 2))
          for (size_t col = m[v].cols.size(); col > 0; --col) t.removeColumn(m[v].cols[col - 1].name);
        else {
          casacore::Vector<casacore::String> all(m[v].cols.size());
          for (size_t col = 0; col < all.size(); ++col) all[col] = m[v].cols[col].name;
          t.removeColumn(all);
        }
        removed[v] = true;
        c.label("manager removed");
      } else {
        const size_t col = x.below(uint32_t(m[v].cols.size()));
        for (size_t q = 0; q < 1 + nRows / 3; ++q) putCell(t, m[v], col, x.below(uint32_t(nRows)));
        want[v].clear();  // encoded again
        c.label("overwritten");
      }
    }
    for (size_t i = 0; i < n; ++i) {
      if (removed[i]) continue;
      const std::vector<unsigned char> got = whole(i);
      if (i == v && want[i].empty()) {
        want[i] = got;
        Table t(path);
        for (size_t col = 0; col < m[i].cols.size(); ++col) values[i][col] = readColumn(t, m[i], col);
        continue;
      }
      c.subEvaluations += got.size();
      CHECK(got == want[i], "influenced-by-manager",
            "the file of " << m[i].k.name << " changed in session " << k << ", which " << (what == 0 ? "removed" : "wrote") << " columns of "
                           << m[v].k.name);
    }
    CHECK(dyscoFiles(path).size() == size_t(std::count(removed.begin(), removed.end(), false)), "files",
          "the table has " << dyscoFiles(path).size() << " Dysco files after session " << k << " with "
                       << m[v].k.name);
  }
  if (nRows > B) c.nontrivial();
}
TFACET("C14", "managers", managers, 700, 250, 8000,
      "2-3 storage managers with settings and shapes of their own in one table, whose columns are "
      "written at random speeds (static seed): every file equals that of the manager alone in a "
      "table; in 1-3 sessions one is overwritten, removed, or added again: the files of the others "
      "stay byte for byte equal; non-trivial: more than one time block");

// ------------------------------------------------------------------ C16
void staticSeed(Ctx &c) {
  DataOpts o;
  o.needData = false;
  o.maxData = 3;
  Data d = genData(c, o);
  d.k.staticSeed = true;
  c.note(d.text());
  const int modeA = int(c.below(kWriteModes)), modeB = int(c.below(kWriteModes));
  const bool grow = c.chance(1, 4), child = c.chance(1, 4), delays = c.chance(1, 2);
  writeTable(c.scratch() + "/a.ms", d, modeA, false);
  if (child) {
    std::string msg;
    CHECK(inChild(c, [&]() { writeTable(c.scratch() + "/b.ms", d, modeB, grow); }, msg, false), "other-process", msg);
  } else if (delays) {
    Silence s;
    Expand e(c.raw());
    Table t = createTable(c.scratch() + "/b.ms", d.l, d.k, d.cols, d.nRows);
    for (size_t r = 0; r < d.nRows; ++r)
      for (size_t i = 0; i < d.cols.size(); ++i) {
        putCell(t, d, i, r);
        if (e.below(6) == 0) usleep(useconds_t(e.below(400)));
      }
  } else
    writeTable(c.scratch() + "/b.ms", d, modeB, grow);
  const std::vector<uint8_t> a = ref::slurp(dyscoFile(c.scratch() + "/a.ms")), b = ref::slurp(dyscoFile(c.scratch() + "/b.ms"));
  size_t at = 0;
  while (at < a.size() && at < b.size() && a[at] == b[at]) ++at;
  c.subEvaluations += a.size();
  CHECK(a == b, "not-reproducible", d.text() << ": the files differ from byte " << at << " (sizes " << a.size() << ", "
                                             << b.size() << "), written " << writeMode(modeA) << " and " << writeMode(modeB)
                                             << (child ? " in another process" : ""));
  c.label(child ? "other process" : delays ? "random delays" : "other order of columns");
  if (d.nBlocks() > 1) c.nontrivial();
}
TFACET("C16", "static", staticSeed, 300, 600, 20000,
      "the same data written twice with a static seed, in different ways (order of columns, whole "
      "columns, growing), with random delays, or in another process: the files are equal byte for "
      "byte; non-trivial: more than one time block");

void randomNoise(Ctx &c) {
  Data d;
  d.k.norm = c.pick({ref::Row, ref::RF, ref::AF});
  d.k.dist = c.pick({ref::Uniform, ref::TruncGaussian, ref::Gaussian});
  d.k.dataBits = c.pick({4u, 6u, 8u});
  d.l.nPol = size_t(c.pick({2, 4}));
  d.l.nChan = size_t(c.range(4, 8));
  d.l.nAnt = 4;
  for (int i = 0; i < 4; ++i)
    for (int j = i + 1; j < 4; ++j) d.l.baselines.push_back({i, j});
  d.l.nTime = size_t(c.range(10, 24));
  for (size_t b = 0; b < d.l.nTime; ++b) {
    d.l.times.push_back(1e9 + double(b));
    d.l.fields.push_back(0);
    d.l.ddids.push_back(0);
  }
  d.nRows = d.l.nRows();
  d.cols = {{"DATA", false}, {"MODEL_DATA", false}};
  d.w.resize(2);
  const size_t B = 6;
  Vis v(d.nRows, std::vector<cf>(d.l.visPerRow()));
  Expand e(c.raw());
  for (size_t r = 0; r < B; ++r)
    for (cf &x : v[r]) x = cf(float(e.sym()), float(e.sym()));
  for (size_t r = B; r < d.nRows; ++r) v[r] = v[r % B];
  d.vis = {v, v};
  c.note(d.text());
  const bool otherProcess = c.chance(1, 2);
  writeTable(c.scratch() + "/a.ms", d, int(c.below(kWriteModes)), false);
  if (otherProcess) {
    std::string msg;
    CHECK(inChild(c, [&]() { writeTable(c.scratch() + "/b.ms", d, 0, false); }, msg, false), "other-process", msg);
  } else
    writeTable(c.scratch() + "/b.ms", d, int(c.below(kWriteModes)), false);
  Silence s;
  const ref::File f = ref::parse(ref::slurp(dyscoFile(c.scratch() + "/a.ms")));
  const BlockValues bv = decodeBlock(f, d.l, d.cols, 0, 0);
  const std::vector<double> lv = d.k.levels();
  Table a(c.scratch() + "/a.ms"), b(c.scratch() + "/b.ms");
  const Vis x0 = readColumn(a, d, 0), x1 = readColumn(a, d, 1), y0 = readColumn(b, d, 0);
  // up(column, block, row, sample, part): whether the upper level was chosen
  struct Pos {
    size_t r, i;
    int p;
    double mid, q, fac;
  };
  std::vector<Pos> pos;
  for (size_t r = 0; r < B; ++r)
    for (size_t i = 0; i < d.l.visPerRow(); ++i)
      for (int p = 0; p < 2; ++p) {
        const double fac = bv.factor[r][i];
        if (fac == 0) continue;
        const double u = (p ? v[r][i].imag() : v[r][i].real()) / fac;
        auto it = std::upper_bound(lv.begin(), lv.end(), u);
        if (it == lv.begin() || it == lv.end()) continue;
        const double q = (u - *(it - 1)) / (*it - *(it - 1));
        if (q > 0.25 && q < 0.75) pos.push_back({r, i, p, 0.5 * (*it + *(it - 1)), q, fac});
      }
  if (pos.size() < 10) return;
  auto up = [&](const Vis &w, size_t block, const Pos &z) {
    const cf g = w[block * B + z.r][z.i];
    return (z.p ? g.imag() : g.real()) / z.fac > z.mid;
  };
  auto test = [&](const char *what, const std::function<std::pair<bool, bool>(size_t, size_t)> &pair, size_t nBlocks,
                  size_t shift) {
    // expected number of agreements if the noise is independent
    double mean = 0, var = 0, n = 0, same = 0;
    for (size_t blk = 0; blk < nBlocks; ++blk)
      for (size_t z = 0; z + shift < pos.size(); ++z) {
        const double q1 = pos[z].q, q2 = pos[z + shift].q;
        const double pr = q1 * q2 + (1 - q1) * (1 - q2);
        mean += pr;
        var += pr * (1 - pr);
        n++;
        const auto ud = pair(blk, z);
        same += ud.first == ud.second;
      }
    c.subEvaluations++;
    // (consecutive pairs overlap in the tests between samples and blocks)
    const double dev = 7 * std::sqrt(2 * var) + 0.01 * n;
    CHECK(std::fabs(same - mean) <= dev, "noise-not-independent",
          d.text() << ": the choices of " << what << " agree in " << same << " of " << n << " cases; expected " << mean
                   << " +- " << dev);
  };
  const size_t nb = d.l.nTime;
  test("two columns", [&](size_t k, size_t z) { return std::make_pair(up(x0, k, pos[z]), up(x1, k, pos[z])); }, nb, 0);
  test("two files", [&](size_t k, size_t z) { return std::make_pair(up(x0, k, pos[z]), up(y0, k, pos[z])); }, nb, 0);
  for (size_t lag : {1, 2, 3, 8})
    test("different time blocks", [&](size_t k, size_t z) { return std::make_pair(up(x0, k, pos[z]), up(x0, k + lag, pos[z])); },
         nb - lag, 0);
  // neighbouring components of one block
  test("different values", [&](size_t k, size_t z) { return std::make_pair(up(x0, k, pos[z]), up(x0, k, pos[z + 1])); }, nb, 1);
  c.nontrivial();
}
TFACET("C16", "noise", randomNoise, 40, 800, 6000,
      "identical data in two columns, two files and all time blocks, without a static seed: how "
      "often the same one of two levels is chosen agrees with independent noise (7 sigma) between "
      "columns, files, blocks at distances 1-8, and neighbouring values; non-trivial: at least "
      "ten values well between levels");

// ------------------------------------------------------------------ C17
Config randomSettings(Ctx &c) {
  Config k = genConfig(c);
  k.name = c.pick<const char *>({"DyscoStMan", "D", "a name of 27 characters ..", "Dysco-1"});
  k.nu = c.pick({1.0, 2.0, 0.75, 13.25, 1000.0, 2.3, 0.7, -1.0});
  if (k.nu < 0) k.nu = 0.6 * std::pow(50.0, c.unit());
  k.trunc = c.pick({2.5, 0.5, 1.0, 3.75, 7.0, 1.7, -1.0});
  if (k.trunc < 0) k.trunc = 0.5 + 6.0 * c.unit();
  return k;
}
void checkSpec(const Config &k, const casacore::Record &r, const std::string &when) {
  const char *dist[] = {"Gaussian", "Uniform", "StudentsT", "TruncatedGaussian"};
  const char *norm[] = {"AF", "RF", "Row"};
  CHECK(r.asInt("dataBitCount") == int(k.dataBits), "data-bits", when << ": " << k.text() << " has dataBitCount " << r.asInt("dataBitCount"));
  CHECK(r.asInt("weightBitCount") == int(k.weightBits), "weight-bits", when << ": " << k.text() << " has weightBitCount " << r.asInt("weightBitCount"));
  const std::string ds = r.asString("distribution");
  CHECK(ds == dist[k.dist] || (k.dist == ref::StudentT && ds == "StudentT"), "distribution", when << ": " << k.text() << " has distribution " << ds);
  CHECK(r.asString("normalization") == norm[k.norm], "normalization", when << ": " << k.text() << " has normalization " << r.asString("normalization"));
  if (k.dist == ref::StudentT) CHECK(r.asDouble("studentTNu") == k.nu, "nu", when << ": " << k.text() << " has nu " << r.asDouble("studentTNu"));
  if (k.dist == ref::TruncGaussian)
    CHECK(r.asDouble("distributionTruncation") == k.trunc, "truncation", when << ": " << k.text() << " has truncation " << r.asDouble("distributionTruncation"));
}
void checkHeader(const Config &k, const std::string &file, const std::string &when) {
  const ref::File f = ref::parse(ref::slurp(file));
  CHECK(f.name == k.name && f.dataBits == k.dataBits && f.weightBits == k.weightBits && f.dist == k.dist && f.norm == k.norm &&
            (k.dist != ref::StudentT || f.nu == k.nu) && (k.dist != ref::TruncGaussian || f.trunc == k.trunc),
        "header", when << ": " << k.text() << " but the file has name " << f.name << ", " << int(f.dataBits) << " and "
                       << int(f.weightBits) << " bits, distribution " << int(f.dist) << " (" << f.nu << ", " << f.trunc
                       << "), normalization " << int(f.norm));
}

void settings(Ctx &c) {
  DataOpts o;
  o.maxData = 2;
  o.vis.nonFinite = false;
  o.incomplete = false;
  o.layout.minTime = 2;
  o.layout.maxTime = 6;
  o.layout.maxRows = 300;
  Data d = genShape(c, o);
  d.k = randomSettings(c);
  d.k.staticSeed = c.chance(1, 4);
  for (size_t i = 0; i < d.cols.size(); ++i) genColumn(c, d, i, o.vis);
  const Config &k = d.k;
  c.note(d.text());
  // manager objects
  std::unique_ptr<dyscostman::DyscoStMan> m = makeStMan(k);
  checkSpec(k, m->dataManagerSpec(), "new manager");
  CHECK(std::string(m->dataManagerName()) == k.name, "name", "name is " << m->dataManagerName());
  std::unique_ptr<casacore::DataManager> clone(m->clone());
  CHECK(clone->dataManagerName() == m->dataManagerName() && clone->dataManagerType() == "DyscoStMan", "name",
        "clone has name " << clone->dataManagerName());
  checkSpec(k, clone->dataManagerSpec(), "clone");
  dyscostman::DyscoStMan copy(*m);
  checkSpec(k, copy.dataManagerSpec(), "copy");
  casacore::Record spec = m->dataManagerSpec();
  // (specifications of older versions do not have this field)
  if (k.dist != ref::StudentT && c.chance(1, 2) && spec.isDefined("studentTNu")) spec.removeField("studentTNu");
  dyscostman::DyscoStMan fromSpec(k.name, spec);
  checkSpec(k, fromSpec.dataManagerSpec(), "from specification");
  std::unique_ptr<casacore::DataManager> made(dyscostman::DyscoStMan::makeObject("DyscoStMan", m->dataManagerSpec()));
  checkSpec(k, made->dataManagerSpec(), "made from specification");
  // tables made in different ways
  const int how = int(c.below(4));
  const std::string path = c.scratch() + "/t.ms";
  Silence s;
  auto make = [&](const std::string &p, int way) -> Table {
    if (way == 0) return createTable(p, d.l, k, d.cols, d.nRows);
    // columns are added with a manager that came from elsewhere
    Table x = createTable(p, d.l, k, {}, d.nRows);
    const IPosition shape(2, ssize_t(d.l.nPol), ssize_t(d.l.nChan));
    casacore::TableDesc td;
    for (auto &col : d.cols)
      if (col.weight) {
        casacore::ArrayColumnDesc<float> cd(col.name, "", "DyscoStMan", k.name, shape);
        cd.setOptions(casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape);
        td.addColumn(cd);
      } else {
        casacore::ArrayColumnDesc<Complex> cd(col.name, "", "DyscoStMan", k.name, shape);
        cd.setOptions(casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape);
        td.addColumn(cd);
      }
    if (way == 1) x.addColumn(td, copy);
    else if (way == 2) x.addColumn(td, *clone);
    else x.addColumn(td, fromSpec);
    return x;
  };
  if (k.staticSeed) {
    // the static seed is kept by copies and clones
    std::vector<unsigned char> bytes;
    for (int way : {0, 1, 2}) {
      const std::string p = c.scratch() + "/seed" + std::to_string(way) + ".ms";
      {
        Table x = make(p, way);
        for (size_t r = 0; r < d.nRows; ++r)
          for (size_t i = 0; i < d.cols.size(); ++i) putCell(x, d, i, r);
      }
      const auto now = ref::slurp(dyscoFile(p));
      if (way == 0) bytes = now;
      CHECK(now == bytes, "static-seed",
            d.text() << ": tables made with a manager and with a " << (way == 1 ? "copy" : "clone") << " of it differ");
    }
    c.label("static seed");
  }
  size_t first = 0;  // rows written so far
  {
    Table t = make(path, how);
    if (c.chance(1, 2)) {
      for (size_t r = 0; r < d.l.rowsPerBlock() * (d.l.nTime - 1); ++r)
        for (size_t i = 0; i < d.cols.size(); ++i) putCell(t, d, i, r);
      first = d.l.rowsPerBlock() * (d.l.nTime - 1);
    }
  }
  checkHeader(k, dyscoFile(path), "after creation");
  auto managerSpec = [&](Table &t, const std::string &when) {
    const casacore::Record info = t.dataManagerInfo();
    bool found = false;
    for (casacore::uInt i = 0; i < info.nfields(); ++i) {
      const casacore::Record &r = info.subRecord(int(i));
      if (r.asString("TYPE") != "DyscoStMan") continue;
      found = true;
      CHECK(r.asString("NAME") == k.name, "name", when << ": manager is called " << r.asString("NAME") << ", not " << k.name);
      checkSpec(k, r.subRecord("SPEC"), when);
    }
    CHECK(found, "no-manager", when << ": no DyscoStMan in the table");
  };
  {
    Table t(path, Table::Update);
    managerSpec(t, "reopened");
    for (size_t r = first; r < d.nRows; ++r)
      for (size_t i = 0; i < d.cols.size(); ++i) putCell(t, d, i, r);
  }
  checkHeader(k, dyscoFile(path), "after adding data");
  Table t(path);
  managerSpec(t, "after adding data");
  auto accuracy = [&](Table &x, const std::string &p, const std::string &when) {
    const ref::File f = ref::parse(ref::slurp(dyscoFile(p)));
    for (size_t i = 0; i < d.cols.size(); ++i) {
      const Vis got = readColumn(x, d, i);
      if (d.cols[i].weight) checkWeightColumn(c, d, i, got, when);
      else checkColumnAccuracy(c, d, i, f, got, when);
    }
  };
  accuracy(t, path, "settings");
  // deep copy: with the same settings, from the values that are read
  if (c.chance(1, 2)) {
    const std::string p2 = c.scratch() + "/copy.ms";
    const bool valueCopy = c.chance(1, 2);
    t.deepCopy(p2, Table::New, valueCopy);
    t = Table();
    Table u(p2, Table::Update);
    managerSpec(u, "deep copy");
    checkHeader(k, dyscoFile(p2), "deep copy");
    t = Table(path);
    Data e = d;
    for (size_t i = 0; i < d.cols.size(); ++i)
      for (size_t r = 0; r < d.nRows; ++r) {
        const std::vector<cf> v = readCell(t, d, i, r);
        if (d.cols[i].weight)
          for (size_t q = 0; q < v.size(); ++q) e.w[i][r][q] = v[q].real();
        else
          e.vis[i][r] = v;
      }
    std::swap(d, e);
    u = Table();
    u = Table(p2);
    accuracy(u, p2, valueCopy ? "copy by value" : "deep copy");
    c.label(valueCopy ? "copy by value" : "deep copy");
  }
  c.nontrivial();
}
TFACET("C17", "settings", settings, 300, 700, 24000,
      "random settings followed through specification, clone, copy, construction from the "
      "specification, creation of a table in four ways, header bytes, reopening, adding data, and "
      "deep copies; values are checked against levels computed from the configured settings; every "
      "case is non-trivial");

}  // namespace
