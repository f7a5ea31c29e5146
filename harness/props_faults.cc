// Properties about requests that must be refused (C18) and files that are
// damaged (C19).
#include "history.h"
#include "tables.h"

#include <set>

#include "dyscostmanerror.h"

#include <casacore/tables/DataMan/DataManInfo.h>

#include <atomic>
#include <cstring>
#include <sys/resource.h>
#include <unistd.h>

using namespace pbt;
using namespace kit;
using casacore::ArrayColumn;
using casacore::ArrayColumnDesc;
using casacore::ColumnDesc;
using casacore::Complex;
using casacore::IPosition;
using casacore::ScalarColumn;
using casacore::ScalarColumnDesc;
using casacore::SetupNewTable;
using casacore::Slicer;
using casacore::StandardStMan;
using casacore::Table;
using casacore::TableDesc;
namespace fs = std::filesystem;

namespace {

constexpr int kDirect = ColumnDesc::Direct | ColumnDesc::FixedShape;

void checkIntact(Ctx &c, Table &t, const Data &d, const std::vector<Vis> &truth, const std::string &when) {
  CHECK(t.nrow() == d.nRows, "row-count", when << ": the table has " << t.nrow() << " rows, expected " << d.nRows);
  for (size_t i = 0; i < d.cols.size(); ++i) {
    CHECK(t.tableDesc().isColumn(d.cols[i].name), "column-gone", when << ": column " << d.cols[i].name << " is gone");
    for (size_t r = 0; r < d.nRows; ++r) {
      c.subEvaluations++;
      const std::vector<cf> v = readCell(t, d, i, r);
      CHECK(identical(v, truth[i][r]), "data-changed",
            when << ": column " << d.cols[i].name << " row " << r << " reads " << v[0] << "..., was " << truth[i][r][0]);
    }
  }
}
std::vector<Vis> readAll(const std::string &path, const Data &d) {
  Silence s;
  Table t(path, Table::Old);
  std::vector<Vis> v;
  for (size_t i = 0; i < d.cols.size(); ++i) v.push_back(readColumn(t, d, i));
  return v;
}

unsigned badBits(Ctx &c) {
  if (c.chance(1, 2))
    return c.pick({0u, 1u, 5u, 7u, 9u, 11u, 13u, 14u, 15u, 17u, 18u, 20u, 24u, 31u, 32u, 33u, 64u, 255u, 256u});
  if (c.chance(1, 2)) return 256 * unsigned(c.range(1, 300)) + c.pick({2u, 3u, 4u, 6u, 8u, 10u, 12u, 16u, 0u});
  const unsigned b = 17 + c.below(100000);
  return b;
}
double badNu(Ctx &c) {
  return c.pick({0.0, -1.0, double(NAN), double(INFINITY), -double(INFINITY), -1e-300, 1e-300, 1e300, -5.0});
}
double badTrunc(Ctx &c) { return c.pick({0.0, -2.5, double(NAN), -double(INFINITY), -1e-5, 1e-300, -0.0}); }

// ------------------------------------------------------------------ C18
// A specification of a column with its manager that can not be supported.
struct Invalid {
  std::string what;
  Config k;
  bool weightColumn = false;
  int columnType = 0;  // 0 regular, else see invalidColumn()
  int shapeKind = 0;   // 0 regular, else see invalidColumn()
  bool badSpec = false;
  casacore::Record spec;
};
Invalid genInvalid(Ctx &c) {
  Invalid v;
  v.k = genConfig(c);
  v.k.name = c.pick<const char *>({"Dysco2", "DyscoStMan2", "x"});
  std::ostringstream s;
  switch (c.below(9)) {
    case 6:
    case 7:
      v.shapeKind = c.range(1, 6);
      v.weightColumn = c.chance(1, 3);
      s << "shape of kind " << v.shapeKind << (v.weightColumn ? " for weights" : "");
      break;
    case 0:
      v.k.dataBits = badBits(c);
      s << "data bits " << v.k.dataBits;
      break;
    case 1:
      v.k.weightBits = badBits(c);
      v.weightColumn = true;
      s << "weight bits " << v.k.weightBits;
      break;
    case 2:
      v.k.dist = ref::StudentT;
      v.k.nu = badNu(c);
      s << "nu " << v.k.nu;
      break;
    case 3:
      v.k.dist = ref::TruncGaussian;
      v.k.trunc = badTrunc(c);
      s << "truncation " << v.k.trunc;
      break;
    case 4:
    case 5:
      v.columnType = c.range(1, 10);
      s << "column type " << v.columnType;
      break;
    default: {
      v.badSpec = true;
      const int kind = int(c.below(6));
      const std::string junk = c.pick<const char *>({"", "uniform", "Foo", "AF ", "rf", "gaussian", "StudentsT2", "GAUSSIAN"});
      v.spec.define("dataBitCount", kind == 0 ? casacore::Int(0) : casacore::Int(8));
      if (kind != 4) v.spec.define("weightBitCount", kind == 1 ? casacore::Int(0) : casacore::Int(12));
      v.spec.define("distribution", casacore::String(kind == 2 ? junk : "TruncatedGaussian"));
      if (kind != 5) v.spec.define("normalization", casacore::String(kind == 3 ? junk : "AF"));
      v.spec.define("studentTNu", 0.0);
      v.spec.define("distributionTruncation", 2.5);
      s << "specification of kind " << kind << " '" << junk << "'";
    }
  }
  v.what = s.str();
  return v;
}
ColumnDesc invalidColumn(const Invalid &v, const IPosition &goodShape, const std::string &dataName) {
  const ssize_t nPol = goodShape[0], nChan = goodShape[1];
  const IPosition shape = v.shapeKind == 1   ? IPosition(1, nPol)
                          : v.shapeKind == 2 ? IPosition(3, nPol, nChan, 2)
                          : v.shapeKind == 3 ? IPosition(3, nPol, nChan, 1)
                          : v.shapeKind == 4 ? IPosition(2, nPol, 0)
                          : v.shapeKind == 5 ? IPosition(2, 0, nChan)
                          : v.shapeKind == 6 ? IPosition(4, 1, 1, nPol, nChan)
                                             : goodShape;
  const std::string g = v.k.name, t = "DyscoStMan";
  auto direct = [](ColumnDesc d) {
    d.setOptions(kDirect);
    return d;
  };
  switch (v.columnType) {
    case 1: return direct(ArrayColumnDesc<casacore::DComplex>(dataName, "", t, g, shape));
    case 2: return direct(ArrayColumnDesc<float>(dataName, "", t, g, shape));
    case 3: return direct(ArrayColumnDesc<double>(dataName, "", t, g, shape));
    case 4: return direct(ArrayColumnDesc<int>(dataName, "", t, g, shape));
    case 5: return direct(ArrayColumnDesc<bool>(dataName, "", t, g, shape));
    case 6: return direct(ArrayColumnDesc<double>("WEIGHT_SPECTRUM", "", t, g, shape));
    case 7: return direct(ArrayColumnDesc<Complex>("WEIGHT_SPECTRUM", "", t, g, shape));
    case 8: return ScalarColumnDesc<Complex>(dataName, "", t, g);
    case 9: return ScalarColumnDesc<float>("WEIGHT_SPECTRUM", "", t, g);
    case 10: return ArrayColumnDesc<Complex>(dataName, "", t, g, 2);  // indirect
    default: break;
  }
  if (v.weightColumn) return direct(ArrayColumnDesc<float>("WEIGHT_SPECTRUM", "", t, g, shape));
  return direct(ArrayColumnDesc<Complex>(dataName, "", t, g, shape));
}

void creation(Ctx &c) {
  const bool existing = c.chance(2, 3);
  DataOpts o;
  o.weight = false;  // (so that a refused weight column has a free name)
  o.layout.maxRows = 300;
  o.layout.maxTime = 4;
  o.layout.big = false;
  o.layout.wide = 0;
  Data d = genData(c, o);
  const std::string path = c.scratch() + "/t.ms";
  const Invalid v = genInvalid(c);
  const IPosition shape(2, ssize_t(d.l.nPol), ssize_t(d.l.nChan));
  c.note(v.what).note(existing ? ", on an existing table: " : ", on a new table: ").note(d.text());
  c.label(v.shapeKind ? "bad shape" : v.badSpec ? "bad specification" : v.columnType ? "bad column" : "bad parameter");
  std::vector<Vis> truth;
  Silence s;
  if (existing) {
    writeTable(path, d, int(c.below(kWriteModes)), false);
    truth = readAll(path, d);
    Table t(path, Table::Update);
    bool thrown = false;
    try {
      if (v.badSpec) {
        dyscostman::DyscoStMan m(v.k.name, v.spec);
        t.addColumn(invalidColumn(v, shape, "EXTRA"), m);
      } else {
        auto m = makeStMan(v.k);
        t.addColumn(invalidColumn(v, shape, "EXTRA"), *m);
      }
    } catch (std::exception &) {
      thrown = true;
    }
    CHECK(thrown, "not-refused", "adding a column with " << v.what << " was not refused; " << d.text());
    if (c.chance(1, 2)) checkIntact(c, t, d, truth, "after refusing " + v.what);
    CHECK(!t.tableDesc().isColumn("EXTRA") && !t.tableDesc().isColumn("WEIGHT_SPECTRUM"), "column-left",
          "the refused column is part of the table");
    t = Table();
    {
      Table u(path, Table::Old);
      checkIntact(c, u, d, truth, "after refusing " + v.what + " and reopening");
    }
    // the table can still be used: overwrite a block
    t = Table(path, Table::Update);
    const size_t i = c.below(uint32_t(d.cols.size()));
    const size_t B = d.l.rowsPerBlock(), b = c.below(uint32_t((d.nRows + B - 1) / B));
    for (size_t r = b * B; r < std::min(d.nRows, (b + 1) * B); ++r) putCell(t, d, i, r);
  } else {
    // a table with only this column; casacore writes a new table at the end
    bool thrown = false;
    try {
      TableDesc td("", TableDesc::Scratch);
      for (const char *n : {"ANTENNA1", "ANTENNA2", "FIELD_ID", "DATA_DESC_ID"}) td.addColumn(ScalarColumnDesc<int>(n));
      td.addColumn(ScalarColumnDesc<double>("TIME"));
      td.addColumn(invalidColumn(v, shape, "DATA"));
      SetupNewTable setup(path, td, Table::New);
      StandardStMan ssm("SSM", 2048);
      for (const char *n : {"ANTENNA1", "ANTENNA2", "FIELD_ID", "DATA_DESC_ID", "TIME"}) setup.bindColumn(n, ssm);
      std::unique_ptr<dyscostman::DyscoStMan> m =
          v.badSpec ? std::make_unique<dyscostman::DyscoStMan>(v.k.name, v.spec) : makeStMan(v.k);
      setup.bindColumn(invalidColumn(v, shape, "DATA").name(), *m);
      Table t(setup, c.pick({casacore::rownr_t(0), casacore::rownr_t(d.nRows)}));
    } catch (std::exception &) {
      thrown = true;
    }
    CHECK(thrown, "not-refused", "creating a table with " << v.what << " was not refused");
    std::error_code ec;
    fs::remove_all(path, ec);
    // a valid one can be made in the same process
    writeTable(path, d, int(c.below(kWriteModes)), false);
  }
  Table t(path, Table::Old);
  const ref::File f = ref::parse(ref::slurp(dyscoFile(path, &d.k.name)));
  for (size_t i = 0; i < d.cols.size(); ++i)
    if (!existing) checkColumnAccuracy(c, d, i, f, readColumn(t, d, i), "valid table after " + v.what);
    else readColumn(t, d, i);
  c.nontrivial();
}
TFACET("C18", "creation", creation, 300, 540, 20000,
       "random unsupported bit rates (incl. values that are valid modulo 256), distribution "
       "parameters, column types, shapes, scalar and indirect columns and specifications, for a new table or "
       "added to a table with Dysco data: an exception, no trace of the column, all data exactly as "
       "before (also after reopening) and the table is still writable; every case is non-trivial");

TFACET("C18", "in_use",
       [](Ctx &c) {
         HistoryOptions o;
         o.invalid = true;
         o.manyBlocks = false;
         o.maxOps = 40;
         history(c, o);
       },
       360, 700, 30000,
       "random table histories as for C12, mixed with requests that must be refused (columns in a "
       "manager with data, rows in the middle, unknown antennas, other shapes, rows beyond the end, "
       "unsupported columns with their own manager) at any moment, and removal of last rows: each is "
       "refused with an exception and the table keeps to the model; non-trivial: at least one refused "
       "request and one written row");

// Removing a row in the middle, whatever the order of the managers.
void removeMiddle(Ctx &c) {
  DataOpts o;
  o.layout.maxRows = 300;
  o.layout.maxTime = 4;
  o.layout.big = false;
  o.layout.wide = 0;
  Data d = genData(c, o);
  if (d.nRows < 2) {
    d.l.baselines = {{0, 1}};
    return;
  }
  const bool dyscoFirst = c.chance(1, 2);
  const std::string path = c.scratch() + "/t.ms";
  Silence s;
  {
    Table t = createTable(path, d.l, d.k, d.cols, d.nRows, dyscoFirst);
    for (size_t r = 0; r < d.nRows; ++r)
      for (size_t i = 0; i < d.cols.size(); ++i) putCell(t, d, i, r);
  }
  const std::vector<Vis> truth = readAll(path, d);
  const size_t row = c.below(uint32_t(d.nRows - 1));
  c.note(d.text()).note(dyscoFirst ? ", Dysco manager first" : ", another manager first").note(", row ").note(row);
  Table t(path, Table::Update);
  bool thrown = false;
  try {
    t.removeRow(casacore::rownr_t(row));
  } catch (std::exception &) {
    thrown = true;
  }
  CHECK(thrown, "not-refused", "removing row " << row << " of " << d.nRows << " was not refused");
  CHECK(t.nrow() == d.nRows, "row-count", "the refused removal changed the number of rows to " << t.nrow());
  // the other columns
  bool shifted = false;
  std::string lost;
  for (size_t r = 0; r < d.nRows && lost.empty(); ++r) {
    std::ostringstream e;
    try {
      const size_t from = r;
      const int a1 = ScalarColumn<int>(t, "ANTENNA1")(r), a2 = ScalarColumn<int>(t, "ANTENNA2")(r);
      const double time = ScalarColumn<double>(t, "TIME")(r);
      const auto ab = d.l.ant(from);
      if (a1 != ab.first || a2 != ab.second || time != d.l.times[r / d.l.rowsPerBlock()])
        e << "row " << r << " has antennas " << a1 << "-" << a2 << " and time " << time << ", was " << ab.first << "-"
          << ab.second << " and " << d.l.times[r / d.l.rowsPerBlock()];
    } catch (std::exception &x) {
      e << "row " << r << " can not be read any more: " << x.what();
    }
    lost = e.str();
    shifted = !lost.empty();
  }
  if (shifted) {
    CHECK(!dyscoFirst, "other-columns", "refusing to remove row " << row << " changed other columns: " << lost);
    c.finding("remove-middle-row-after-other-manager", "other-columns",
              "refusing to remove row " + std::to_string(row) + " changed other columns: " + lost);
    // these columns lost exactly that row, nothing else
    for (size_t r = 0; r + 1 < d.nRows; ++r) {
      const auto ab = d.l.ant(r < row ? r : r + 1);
      CHECK((ScalarColumn<int>(t, "ANTENNA1")(r) == ab.first && ScalarColumn<int>(t, "ANTENNA2")(r) == ab.second),
            "other-columns", "row " << r << " has other antennas after the refused removal");
    }
  }
  // the data itself (AF decoding needs the antennas)
  if (!shifted)
    checkIntact(c, t, d, truth, "after refusing to remove a row");
  else if (d.k.norm != ref::AF)
    for (size_t i = 0; i < d.cols.size(); ++i)
      for (size_t r = 0; r < d.nRows; ++r) {
        // the block that the last row is in needs its lost antennas
        if (r / d.l.rowsPerBlock() == (d.nRows - 1) / d.l.rowsPerBlock()) break;
        c.subEvaluations++;
        CHECK(identical(readCell(t, d, i, r), truth[i][r]), "data-changed", "the refused removal changed row " << r);
      }
  c.nontrivial();
}
TFACET("C18", "remove_row", removeMiddle, 260, 200, 4000,
       "tables with the Dysco manager before or after another one; a random row that is not the last "
       "is removed: refused, same number of rows, same values in all columns; the listed finding "
       "(manager after another one) is recognised by the exact state it leaves; every case is non-trivial");

// The first rows of a new table in any order: refused, or stored correctly.
void firstRows(Ctx &c) {
  DataOpts o;
  o.maxData = 2;
  o.vis.nonFinite = false;
  o.layout.minTime = 2;
  o.layout.maxTime = 6;
  o.layout.maxRows = 120;
  o.layout.big = false;
  o.layout.wide = 0;
  Data d = genShape(c, o);
  for (size_t i = 0; i < d.cols.size(); ++i) genColumn(c, d, i, o.vis);
  const std::string path = c.scratch() + "/t.ms";
  const size_t B = d.l.rowsPerBlock();
  const size_t n = size_t(c.range(1, 12));
  c.note(d.text()).note(", first ");
  size_t refused = 0;
  const bool inOrder = c.chance(1, 2);
  std::vector<std::set<size_t>> first(d.cols.size());
  bool consecutive = true;
  Silence s;
  auto tryPut = [&](Table &t, size_t col, size_t r) {
    try {
      putCell(t, d, col, r);
      return true;
    } catch (casacore::AipsError &e) {
      ++refused;
      return false;
    }
  };
  {
    Table t = createTable(path, d.l, d.k, d.cols, d.nRows);
    size_t next = 0;
    std::vector<size_t> last(d.cols.size(), 0);
    for (size_t k = 0; k < n; ++k) {
      const size_t col = c.below(uint32_t(d.cols.size()));
      const size_t r = inOrder ? last[col] + c.below(uint32_t(2 * B)) : c.chance(1, 2) ? c.below(uint32_t(d.nRows)) : std::min(d.nRows - 1, c.below(2) * B + c.below(uint32_t(B)));
      c.note(d.cols[col].name[0]).note(r).note(" ");
      if (r >= d.nRows) break;
      if (r != next++) consecutive = false;
      last[col] = r;
      if (tryPut(t, col, r)) first[col].insert(r);
    }
  }
  const size_t early = refused;
  if (inOrder && early < n) {  // every block was encoded once
    Table t(path);
    const ref::File f = ref::parse(ref::slurp(dyscoFile(path)));
    for (size_t i = 0; i < d.cols.size(); ++i) {
      Vis got(d.nRows);
      if (!d.cols[i].weight)
        for (size_t r : first[i]) {
          got[r] = readCell(t, d, i, r);
          checkColumnAccuracy(c, d, i, f, got, "first rows", r, r + 1);
        }
    }
  }
  std::vector<std::set<size_t>> accepted(d.cols.size());
  {
    Table t(path, Table::Update);
    CHECK(t.nrow() == d.nRows, "row-count", "table has " << t.nrow() << " rows instead of " << d.nRows);
    for (size_t i = 0; i < d.cols.size(); ++i)
      for (size_t r = 0; r < d.nRows; ++r)
        if (tryPut(t, i, r)) accepted[i].insert(r);
  }
  c.note("; ").note(refused).note(" refused");
  Table t(path);
  const ref::File f = ref::parse(ref::slurp(dyscoFile(path)));
  size_t checked = 0;
  for (size_t i = 0; i < d.cols.size(); ++i) {
    if (d.cols[i].weight) continue;
    Vis got(d.nRows);
    for (size_t r : accepted[i]) {
      got[r] = readCell(t, d, i, r);
      checkColumnAccuracy(c, d, i, f, got, "accepted", r, r + 1);
      ++checked;
    }
  }
  c.label(early ? "refused" : "accepted");
  if (!consecutive && checked > 0) c.nontrivial();
}
TFACET("C18", "first_rows", firstRows, 400, 300, 12000,
       "1-12 rows of random columns and time blocks are the first that are written to a new table; it "
       "is closed, read, opened and then written completely: every put is refused with an exception or its "
       "value is read back within a step; non-trivial: the first rows were not consecutive and values "
       "were compared");

// ------------------------------------------------------------------ C19
}  // namespace
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                                         void (*)(const volatile void *)) __attribute__((weak));
namespace {
std::atomic<size_t> gLargest{0};
void onMalloc(const volatile void *, size_t n) {
  size_t x = gLargest;
  while (n > x && !gLargest.compare_exchange_weak(x, n)) {
  }
}
void onFree(const volatile void *) {}
void watchAllocations() {
  static bool done = false;
  if (!done && __sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  done = true;
  gLargest = 0;
}

Data faultData(Ctx &c) {
  DataOpts o;
  o.needData = false;
  o.maxData = 3;
  o.layout.maxRows = 250;
  o.layout.maxTime = 6;
  o.layout.big = false;
  o.layout.wide = 0;
  Data d = genData(c, o);
  if (d.k.dataBits == 16 || d.k.dataBits == 12)
    if (c.chance(2, 3)) d.k.dataBits = 8;  // (cheaper)
  return d;
}

uint64_t boundary(Ctx &c, uint64_t was, int bytes) {
  const uint64_t max = bytes == 8 ? UINT64_MAX : (uint64_t(1) << (8 * bytes)) - 1;
  uint64_t v = 0;
  switch (c.below(12)) {
    case 0: v = 0; break;
    case 1: v = 1; break;
    case 2: v = max; break;
    case 3: v = max >> 1; break;
    case 4: v = (max >> 1) + 1; break;
    case 5: v = was + 1; break;
    case 6: v = was - 1; break;
    case 7: v = was * 2; break;
    case 8: v = was / 2; break;
    case 9: v = was ^ (uint64_t(1) << c.below(uint32_t(8 * bytes))); break;
    case 10: v = was + c.below(100); break;
    default: v = (uint64_t(c.raw()) << 32) ^ c.raw();
  }
  return v & max;
}
void setField(std::vector<uint8_t> &b, size_t at, int bytes, uint64_t v) {
  for (int i = 0; i < bytes; ++i)
    if (at + size_t(i) < b.size()) b[at + size_t(i)] = uint8_t(v >> (8 * i));
}
uint64_t getField(const std::vector<uint8_t> &b, size_t at, int bytes) {
  uint64_t v = 0;
  for (int i = 0; i < bytes; ++i)
    if (at + size_t(i) < b.size()) v |= uint64_t(b[at + size_t(i)]) << (8 * i);
  return v;
}
struct Field {
  const char *name;
  size_t at;
  int bytes;
};
std::vector<Field> fieldsOf(const ref::File &f) {
  std::vector<Field> v = {{"headerSize", 0, 4}, {"columnHeaderOffset", 4, 4}, {"columnCount", 8, 4}, {"nameLength", 12, 4}};
  size_t p = 16 + f.name.size();
  for (auto &x : std::initializer_list<std::pair<const char *, int>>{{"rowsPerBlock", 4}, {"antennaCount", 4}, {"blockSize", 4},
                                                                     {"versionMajor", 2}, {"versionMinor", 2}, {"dataBits", 1},
                                                                     {"weightBits", 1}, {"distribution", 1}, {"normalization", 1},
                                                                     {"nu", 8}, {"truncation", 8}}) {
    v.push_back({x.first, p, x.second});
    p += size_t(x.second);
  }
  for (size_t i = 0; i < f.cols.size(); ++i) {
    v.push_back({"columnHeaderSize", p, 4});
    v.push_back({"columnBlockSize", p + 4, 4});
    v.push_back({"columnAntennaCount", p + 8, 4});
    p += 12;
  }
  return v;
}

// opens and reads everything; returns what happened
std::string readDamaged(Ctx &c, const Data &d, const std::string &path) {
  Silence s;
  size_t refusedCells = 0, cells = 0;
  try {
    Table t(path, c.chance(1, 2) ? Table::Old : Table::Update);
    Expand e(c.raw());
    const bool shuffled = c.chance(1, 2);
    for (size_t i = 0; i < d.cols.size(); ++i)
      for (size_t n = 0; n < d.nRows; ++n) {
        const size_t r = shuffled ? e.below(uint32_t(d.nRows)) : n;
        ++cells;
        try {
          readCell(t, d, shuffled ? e.below(uint32_t(d.cols.size())) : i, r);
        } catch (std::exception &) {
          ++refusedCells;
        }
      }
  } catch (std::exception &) {
    return "refused at open";
  }
  return refusedCells == 0 ? "read" : refusedCells == cells ? "refused at every read" : "partly refused";
}

void damaged(Ctx &c) {
  watchAllocations();
  const Data d = faultData(c);
  const std::string path = c.scratch() + "/t.ms";
  writeTable(path, d, int(c.below(kWriteModes)), false);
  const std::string file = dyscoFile(path);
  std::vector<uint8_t> b = ref::slurp(file);
  const std::vector<uint8_t> original = b;
  const ref::File f = ref::parse(b);
  const std::vector<Field> fields = fieldsOf(f);
  std::ostringstream what;
  const int n = c.chance(1, 4) ? c.range(1, 4) : 1;
  bool body = false;
  for (int k = 0; k < n; ++k) switch (c.weighted({8, 3, 3, 2, 2, 3, 2, 5})) {
      case 0: {
        const Field &x = fields[c.below(uint32_t(fields.size()))];
        uint64_t v = boundary(c, getField(b, x.at, x.bytes), x.bytes);
        if (x.bytes == 8 && c.chance(2, 3)) {
          const double y = c.pick({0.0, -1.0, double(NAN), double(INFINITY), 1e-300, 1e300, 1e-3, 0.2, 1e12, -0.0, 1e-12, 100.0, 0.1});
          memcpy(&v, &y, 8);
        }
        setField(b, x.at, x.bytes, v);
        what << x.name << "=" << v << " ";
        break;
      }
      case 1: {  // a scale factor or other four bytes of the blocks
        if (b.size() <= f.headerSize) break;
        const size_t at = f.headerSize + 4 * c.below(uint32_t((b.size() - f.headerSize) / 4 + 1));
        const float x = c.pick({NAN, INFINITY, -INFINITY, -1.0f, 1e38f, 3.4e38f, 1e-45f, 0.0f, -0.0f, -3.4e38f});
        uint32_t u;
        memcpy(&u, &x, 4);
        setField(b, at, 4, u);
        what << "float " << x << " at " << at << " ";
        body = true;
        break;
      }
      case 2: {  // truncated
        const size_t size = c.chance(1, 3) ? c.below(uint32_t(std::min<size_t>(b.size(), f.headerSize) + 1)) : c.below(uint32_t(b.size() + 1));
        what << "truncated from " << b.size() << " to " << size << " ";
        b.resize(size);
        body = true;
        break;
      }
      case 3: {  // extended
        const size_t more = size_t(c.sized(1, 200, 100000));
        const int kind = int(c.below(3));
        Expand e(c.raw());
        for (size_t i = 0; i < more; ++i) b.push_back(kind == 0 ? 0 : kind == 1 ? 255 : uint8_t(e.u64()));
        what << "extended by " << more << " ";
        body = true;
        break;
      }
      case 4: {  // random bytes anywhere
        const int m = c.range(1, 20);
        for (int i = 0; i < m && !b.empty(); ++i) b[c.below(uint32_t(b.size()))] ^= uint8_t(1 + c.below(255));
        what << m << " bytes ";
        break;
      }
      case 5: {  // random bytes in the header
        const int m = c.range(1, 4);
        for (int i = 0; i < m && !b.empty(); ++i) {
          const size_t at = c.below(uint32_t(std::min<size_t>(b.size(), f.headerSize)));
          b[at] ^= uint8_t(1 + c.below(255));
          what << "byte " << at << " ";
        }
        break;
      }
      case 7: {  // other settings, with the block size that belongs to them
        ref::File g = f;
        switch (c.below(5)) {
          case 0: g.rowsPerBlock = uint32_t(c.pick({0, 1, 2, 3, 7, 64, 200, 1000})); break;
          case 1: g.antennaCount = uint32_t(c.pick({0, 1, 2, 3, 50, 1000})); break;
          case 2: g.dataBits = uint8_t(c.pick({2, 3, 4, 6, 8, 10, 12, 16})); break;
          case 3: g.norm = uint8_t(c.below(3)); break;
          default: g.weightBits = uint8_t(c.pick({2, 3, 4, 6, 8, 10, 12, 16}));
        }
        uint64_t size = 0;
        for (auto &col : d.cols) size += columnSize(g, d.l, col);
        const uint64_t v[] = {g.rowsPerBlock, g.antennaCount, size, g.dataBits, g.weightBits, g.norm};
        const int at[] = {4, 5, 6, 9, 10, 12};
        for (int i = 0; i < 6; ++i) setField(b, fields[size_t(at[i])].at, fields[size_t(at[i])].bytes, v[i]);
        what << "rowsPerBlock=" << g.rowsPerBlock << " antennaCount=" << g.antennaCount << " blockSize=" << size
             << " dataBits=" << int(g.dataBits) << " weightBits=" << int(g.weightBits) << " normalization=" << int(g.norm) << " ";
        break;
      }
      default: {  // a region removed, zeroed or repeated
        if (b.size() < 4) break;
        const size_t at = c.below(uint32_t(b.size())), len = 1 + c.below(uint32_t(std::min<size_t>(b.size() - at, 64)));
        const int kind = int(c.below(3));
        if (kind == 0) b.erase(b.begin() + ssize_t(at), b.begin() + ssize_t(at + len));
        else if (kind == 1) std::fill(b.begin() + ssize_t(at), b.begin() + ssize_t(at + len), 0);
        else b.insert(b.begin() + ssize_t(at), original.begin(), original.begin() + ssize_t(std::min(len, original.size())));
        what << (kind == 0 ? "removed " : kind == 1 ? "zeroed " : "inserted ") << len << " bytes at " << at << " ";
      }
    }
  ref::spew(file, b);
  c.note(what.str()).note("| ").note(d.text());
  gLargest = 0;
  const std::string r = readDamaged(c, d, path);
  c.label(r);
  // everything in these tables fits in a small fraction of this
  CHECK(gLargest < (size_t(1) << 28), "allocation",
        what.str() << ": reading a file of " << b.size() << " bytes allocated " << gLargest << " bytes at once; " << d.text());
  CHECK(ref::slurp(file) == b || r != "refused at open", "file-changed", what.str() << ": the refused file was changed");
  if (b != original) c.nontrivial();
  (void)body;
}
TFACET("C19", "damaged", damaged, 360, 3000, 80000,
       "files of generated tables with one to four of: a header field set to a boundary value, "
       "settings changed together with the block size, scale factors set to NaN, infinity and extremes, truncation, extension, random bytes, regions "
       "removed, zeroed or inserted; then opened and all cells read in or out of order: exception or "
       "values, no sanitizer report, no allocation above 256 MiB, no hang; non-trivial: the bytes "
       "differ from the original");

// complete blocks keep their values
void lostEnd(Ctx &c) {
  const Data d = faultData(c);
  const std::string path = c.scratch() + "/t.ms";
  writeTable(path, d, int(c.below(kWriteModes)), false);
  const std::vector<Vis> truth = readAll(path, d);
  const std::string file = dyscoFile(path);
  std::vector<uint8_t> b = ref::slurp(file);
  const ref::File f = ref::parse(b);
  const size_t was = b.size();
  const bool longer = c.chance(1, 5);
  size_t size;
  if (longer) {
    size = was + 1 + c.below(uint32_t(2 * f.blockSize + 10));
  } else {
    switch (c.below(4)) {
      case 0: size = f.headerSize + f.blockSize * c.below(uint32_t(f.nBlocks() + 1)); break;
      case 1: size = was - std::min<size_t>(was - f.headerSize, c.below(20)); break;
      case 2: size = f.headerSize + c.below(uint32_t(f.blockSize)); break;
      default: size = f.headerSize + c.below(uint32_t(was - f.headerSize + 1));
    }
    size = std::min(size, was);
  }
  b.resize(size, uint8_t(c.below(256)));
  ref::spew(file, b);
  c.note(d.text()).note(", size ").note(was).note(" -> ").note(size);
  const size_t complete = std::min<size_t>((std::min(size, was) - f.headerSize) / f.blockSize, f.nBlocks());
  const size_t rows = longer ? d.nRows : std::min(d.nRows, complete * d.l.rowsPerBlock());
  Silence s;
  Table t(path, c.chance(1, 2) ? Table::Old : Table::Update);
  Expand e(c.raw());
  const bool backwards = c.chance(1, 2);
  for (size_t i = 0; i < d.cols.size(); ++i)
    for (size_t n = 0; n < d.nRows; ++n) {
      const size_t r = backwards ? d.nRows - 1 - n : n;
      std::vector<cf> v;
      std::string why;
      try {
        v = readCell(t, d, i, r);
      } catch (std::exception &x) {
        why = x.what();
      }
      c.subEvaluations++;
      if (r >= rows) continue;
      CHECK(why.empty(), "complete-block", d.text() << ": file of " << was << " bytes resized to " << size << ": row " << r
                                                    << " in a complete block can not be read: " << why);
      CHECK(identical(v, truth[i][r]), "complete-block",
            d.text() << ": file of " << was << " bytes resized to " << size << ": row " << r
                     << " in a complete block has another value: " << v[0] << ", was " << truth[i][r][0]);
    }
  if (size != was) c.nontrivial();
}
TFACET("C19", "lost_end", lostEnd, 320, 700, 30000,
       "files of generated tables resized to a random size behind the header (block boundaries, just "
       "before the end, within the first block, anywhere, or longer): every cell of a block that is "
       "completely in the file has its original value, the others do not crash; non-trivial: the size "
       "changed");

}  // namespace
