#include "history.h"

#include "dyscostmanerror.h"

using namespace pbt;
using namespace kit;
using casacore::ArrayColumn;
using casacore::Complex;
using casacore::IPosition;
using casacore::Slicer;
using casacore::Table;

namespace {

struct Cell {
  bool written = false;
  bool unknown = false;  // the row was removed and added again
  bool exact = false;   // the stored value is known exactly
  int visits = 0;       // number of times it may have been encoded since base
  std::vector<cf> base;  // weights use the real part
};
struct Column {
  ColumnSpec spec;
  std::vector<Cell> cells;
  size_t current = SIZE_MAX;
  bool changed = false;
};

class History {
 public:
  History(Ctx &ctx, const HistoryOptions &o) : c(ctx), opt(o) {}

  void run() {
    setup();
    create();
    const int ops = c.range(1, opt.maxOps);
    for (int i = 0; i < ops; ++i) {
      step();
      if (opt.invalid && c.chance(1, 3)) invalidRequest();
    }
    // finish
    makeClosable();
    reopen("final");
    checkAll();
    checkFile();
    c.note(" ops:").note(trace.substr(0, 400));
    c.count("puts", puts);
    c.count("gets", gets);
    c.count("reopens", reopens);
    c.count("overwrites", overwrites);
    if (opt.invalid) {
      if (refused > 0 && puts > 0) c.nontrivial();
    } else if (puts > 3 && gets > 0 && (reopens > 1 || overwrites > 0))
      c.nontrivial();
  }

 private:
  void setup() {
    k.norm = c.pick({ref::Row, ref::RF, ref::AF});
    k.dist = c.pick({ref::Uniform, ref::TruncGaussian, ref::Gaussian});
    k.trunc = c.pick({2.5, 1.5});
    k.dataBits = c.pick({8u, 12u, 10u, 16u, 6u});
    k.weightBits = c.pick({12u, 8u, 6u, 16u, 10u});
    k.staticSeed = c.chance(1, 5);
    if (k.norm == ref::AF) {
      if (k.dist == ref::Gaussian) k.dist = ref::Uniform;
      k.dataBits = k.dist == ref::Uniform ? c.pick({12u, 16u}) : 16u;
    } else if (k.dist == ref::Gaussian) {
      k.dataBits = c.pick({12u, 16u});
    } else if (k.dataBits == 6)
      k.dist = ref::Uniform;
    LayoutOpts lo;
    lo.minTime = 1;
    lo.maxTime = 6;
    lo.maxRows = 400;
    lo.big = false;
    lo.autos = k.norm != ref::AF;
    l = genLayout(c, lo);
    if (l.nChan > 6) l.nChan = 6;
    if (l.baselines.size() > 12) {
      // keep the number of rows modest
      l.baselines.resize(12);
      bool cross = false;
      for (auto &b : l.baselines) cross |= b.first != b.second;
      if (!cross) l.baselines[0] = {0, 1};
    }
    if (opt.manyBlocks && (opt.moreBlocks ? c.chance(1, 2) : c.chance(1, 6))) {
      // more blocks than the cache
      const size_t n = size_t(c.range(12, 40));
      l.baselines.resize(std::min<size_t>(l.baselines.size(), 3));
      if (k.norm == ref::AF)
        for (auto &b : l.baselines)
          if (b.first == b.second) b.second = b.first + 1;
      while (l.times.size() < n) {
        l.times.push_back(l.times.back() + 1.0);
        l.fields.push_back(l.fields.back());
        l.ddids.push_back(l.ddids.back());
      }
      l.nTime = n;
      c.label("more blocks than the cache holds");
    }
    nan = c.chance(1, 3);
    konst = c.pick({1.0, 1e-6, 1e5, 300.0});
    const int n = c.range(1, opt.maxColumns);
    const bool weight = c.chance(1, 2);
    for (int i = 0; i < n; ++i) {
      Column col;
      if (i == 0 && weight)
        col.spec = {"WEIGHT_SPECTRUM", true};
      else
        col.spec = {i == 0 ? "DATA" : i == 1 ? "MODEL_DATA" : "CORRECTED_DATA", false};
      cols.push_back(col);
    }
    if (c.chance(1, 2)) std::reverse(cols.begin(), cols.end());
    const std::vector<double> lv = k.levels();
    double gap = 0;
    for (size_t i = 1; i < lv.size(); ++i) gap = std::max(gap, lv[i] - lv[i - 1]);
    gapRel = gap / lv.back();
    c.note(k.text()).note(", ").note(l.text()).note(", ").note(n).note(" columns");
    c.label(k.norm == ref::AF ? "AF" : k.norm == ref::RF ? "RF" : "Row");
  }

  std::string path() const { return c.scratch() + "/t.ms"; }
  size_t B() const { return l.rowsPerBlock(); }

  void create() {
    Silence s;
    const int how = int(c.below(5));
    if (how == 0) nRows = l.nRows();
    else if (how == 1) nRows = std::min(l.nRows(), B());
    else if (how == 2) nRows = size_t(c.below(uint32_t(l.nRows() + 1)));
    else if (how == 3) nRows = 0;
    else nRows = l.nRows() - c.below(uint32_t(B()));  // incomplete last block
    std::vector<ColumnSpec> specs;
    for (auto &col : cols) {
      specs.push_back(col.spec);
      col.cells.assign(l.nRows(), Cell());
    }
    dyscoFirst = opt.invalid && c.chance(1, 2);
    table = createTable(path(), l, k, specs, nRows, dyscoFirst);
    order = specs;
  }

  // value for a version of a row
  std::vector<cf> value(size_t ci, size_t row, uint32_t version) const {
    std::vector<cf> v(l.visPerRow());
    Expand e(mix((uint64_t(ci) << 40) ^ (uint64_t(row) << 16)) ^ version);
    auto amp = [&] { return float(konst * (0.25 + 0.75 * e.unit()) * (e.below(2) ? 1 : -1)); };
    for (cf &x : v) {
      x = cf(amp(), amp());
      if (cols[ci].spec.weight)
        x = cf(std::fabs(x.real()), 0);
      else if (nan && version % 4 == 0 && e.below(8) == 0)
        x = cf(NAN, e.below(2) ? INFINITY : NAN);
    }
    return v;
  }

  // the column may be storing the block it works on
  void touch(Column &col, size_t block, bool change) {
    if (offsets) {
      if (col.current != block && col.changed) {
        stored(col, col.current);
        col.changed = false;
      }
      col.current = block;
    } else
      col.current = 0;
    col.changed = col.changed || change;
  }
  void stored(Column &col, size_t block) {
    for (size_t r = block * B(); r < std::min((block + 1) * B(), col.cells.size()); ++r) {
      col.cells[r].visits++;
      col.cells[r].exact = false;
    }
  }

  bool block0Complete() const {
    for (auto &col : cols) {
      bool all = true;
      for (size_t r = 0; r < B(); ++r) all = all && col.cells[r].written;
      if (all) return true;
    }
    return false;
  }
  bool anyWritten() const {
    for (auto &col : cols)
      for (auto &x : col.cells)
        if (x.written) return true;
    return false;
  }
  // Until the block size is known, which is when a column continues from the
  // first to the second time block, only the first time block may be written.
  bool mayPut(size_t ci, size_t row) const {
    if (row >= nRows) return false;
    if (offsets) return true;
    if (row < B()) return true;
    if (row != B() || !block0Complete()) return false;
    for (size_t r = 0; r < B(); ++r)
      if (cols[ci].cells[r].written) return true;
    return false;
  }

  void put(size_t ci, size_t row) {
    Column &col = cols[ci];
    const std::vector<cf> v = value(ci, row, c.below(64));
    written(ci, row, v);
    if (col.spec.weight) {
      std::vector<float> w;
      for (auto &x : v) w.push_back(x.real());
      putWeight(table, col.spec.name, row, l, w);
    } else
      putVis(table, col.spec.name, row, l, v);
    trace += " P" + std::to_string(ci) + ":" + std::to_string(row);
  }

  // the model of a put
  void written(size_t ci, size_t row, const std::vector<cf> &v) {
    Column &col = cols[ci];
    Cell &cell = col.cells[row];
    if (cell.written) ++overwrites;
    if (!offsets && row >= B()) offsets = true;
    touch(col, row / B(), true);
    cell.written = true;
    cell.unknown = false;
    cell.exact = false;
    cell.visits = 0;
    cell.base = v;
    if (col.spec.weight)
      for (size_t i = 0; i < v.size(); i += l.nPol) {
        float m = v[i].real();
        for (size_t p = 1; p < l.nPol; ++p) m = std::min(m, v[i + p].real());
        for (size_t p = 0; p < l.nPol; ++p) cell.base[i + p] = m;
      }
    weightUnmerged.insert({ci, row});
    ++puts;
  }

  // several rows at once
  void putRows(size_t ci) {
    if (nRows == 0) return;
    const size_t limit = offsets ? nRows : std::min(nRows, B());
    std::vector<size_t> rows;
    const bool range = c.chance(1, 2);
    if (range) {
      const size_t first = c.below(uint32_t(limit));
      const size_t n = 1 + c.below(uint32_t(std::min<size_t>(limit - first, 2 * B())));
      for (size_t i = 0; i < n; ++i) rows.push_back(first + i);
    } else {
      for (int i = c.range(1, 6); i > 0; --i) rows.push_back(c.below(uint32_t(limit)));
      // (a row twice would leave the order of the two to casacore)
      std::vector<size_t> u;
      for (size_t r : rows)
        if (std::find(u.begin(), u.end(), r) == u.end()) u.push_back(r);
      rows = u;
    }
    const IPosition shape(3, ssize_t(l.nPol), ssize_t(l.nChan), ssize_t(rows.size()));
    casacore::Array<Complex> a(shape);
    casacore::Array<float> w(shape);
    trace += " M" + std::to_string(ci) + ":";
    for (size_t i = 0; i < rows.size(); ++i) {
      const std::vector<cf> v = value(ci, rows[i], c.below(64));
      for (size_t x = 0; x < v.size(); ++x) {
        a.data()[i * v.size() + x] = v[x];
        w.data()[i * v.size() + x] = v[x].real();
      }
      written(ci, rows[i], v);
      trace += (i ? "," : "") + std::to_string(rows[i]);
    }
    const std::string &name = cols[ci].spec.name;
    if (range) {
      const Slicer s(IPosition(1, ssize_t(rows[0])), IPosition(1, ssize_t(rows.size())));
      if (cols[ci].spec.weight) ArrayColumn<float>(table, name).putColumnRange(s, w);
      else ArrayColumn<Complex>(table, name).putColumnRange(s, a);
    } else {
      casacore::Vector<casacore::rownr_t> nr(rows.size());
      for (size_t i = 0; i < rows.size(); ++i) nr[i] = rows[i];
      const casacore::RefRows ref(nr);
      if (cols[ci].spec.weight) ArrayColumn<float>(table, name).putColumnCells(ref, w);
      else ArrayColumn<Complex>(table, name).putColumnCells(ref, a);
    }
    c.label("rows put at once");
  }

  struct Part {
    Slicer slicer;
    std::vector<size_t> samples;  // in the order of the slice
  };
  Part part(bool allPol) {
    auto axis = [&](size_t n, bool all, ssize_t &start, ssize_t &count, ssize_t &step) {
      start = 0, count = ssize_t(n), step = 1;
      if (all) return;
      start = ssize_t(c.below(uint32_t(n)));
      step = c.range(1, 3);
      const ssize_t most = (ssize_t(n) - 1 - start) / step + 1;
      count = 1 + ssize_t(c.below(uint32_t(most)));
    };
    ssize_t ps, pn, pi, cs, cn, ci;
    axis(l.nPol, allPol, ps, pn, pi);
    axis(l.nChan, false, cs, cn, ci);
    Part r{Slicer(IPosition(2, ps, cs), IPosition(2, pn, cn), IPosition(2, pi, ci)), {}};
    for (ssize_t x = 0; x < cn; ++x)
      for (ssize_t y = 0; y < pn; ++y) r.samples.push_back(size_t(cs + x * ci) * l.nPol + size_t(ps + y * pi));
    return r;
  }
  void getPart(size_t ci, size_t row) {
    const Part p = part(false);
    touch(cols[ci], row / B(), false);
    ++gets;
    trace += " S" + std::to_string(ci) + ":" + std::to_string(row);
    std::vector<cf> y(l.visPerRow());
    std::vector<char> mask(y.size(), 0);
    size_t i = 0;
    auto set = [&](const cf &x) {
      CHECK(i < p.samples.size(), "slice", "too many values in a slice; history:" << trace);
      y[p.samples[i]] = x;
      mask[p.samples[i++]] = 1;
    };
    if (cols[ci].spec.weight) {
      for (float x : ArrayColumn<float>(table, cols[ci].spec.name).getSlice(row, p.slicer)) set(cf(x, 0));
    } else {
      for (const Complex &x : ArrayColumn<Complex>(table, cols[ci].spec.name).getSlice(row, p.slicer)) set(x);
    }
    CHECK(i == p.samples.size(), "slice", "too few values in a slice; history:" << trace);
    check(ci, row, y, "get slice", &mask);
    c.label("slices");
  }
  // a part of a row: the rest is read and stored again
  void putPart(size_t ci, size_t row) {
    Cell &cell = cols[ci].cells[row];
    if (cell.unknown || (!cell.written && k.norm == ref::AF)) return;
    const bool weight = cols[ci].spec.weight;
    const Part p = part(weight);
    const std::vector<cf> v = value(ci, row, c.below(64));
    std::vector<cf> all = cell.written ? cell.base : std::vector<cf>(l.visPerRow(), cf(0));
    for (size_t s : p.samples) all[s] = v[s];
    const int visits = cell.visits;
    written(ci, row, all);
    cell.visits = visits;
    trace += " Q" + std::to_string(ci) + ":" + std::to_string(row);
    size_t i = 0;
    if (weight) {
      casacore::Array<float> a(p.slicer.length());
      for (float &x : a) x = v[p.samples[i++]].real();
      ArrayColumn<float>(table, cols[ci].spec.name).putSlice(row, p.slicer, a);
    } else {
      casacore::Array<Complex> a(p.slicer.length());
      for (Complex &x : a) x = v[p.samples[i++]];
      ArrayColumn<Complex>(table, cols[ci].spec.name).putSlice(row, p.slicer, a);
    }
    c.label("slices put");
  }

  std::vector<cf> read(size_t ci, size_t row) {
    Column &col = cols[ci];
    touch(col, row / B(), false);
    ++gets;
    if (col.spec.weight) {
      const std::vector<float> w = getWeight(table, col.spec.name, row, l);
      std::vector<cf> v;
      for (float x : w) v.push_back(cf(x, 0));
      return v;
    }
    return getVis(table, col.spec.name, row, l);
  }

  void check(size_t ci, size_t row, const std::vector<cf> &y, const char *when,
             const std::vector<char> *mask = nullptr) {
    const Column &col = cols[ci];
    const Cell &cell = col.cells[row];
    const double n = std::max(1, cell.visits);
    double tol = 0;
    if (col.spec.weight)
      tol = konst / double((size_t(1) << k.weightBits) - 1) * 0.51 * n + 1e-6 * konst;
    else
      tol = konst * gapRel * (k.norm == ref::AF ? 30.0 : 1.001) * n + 1e-5 * konst;
    for (size_t i = 0; i < l.visPerRow(); ++i)
      for (int p = 0; p < (col.spec.weight ? 1 : 2); ++p) {
        if (mask && !(*mask)[i]) continue;
        const double got = p ? y[i].imag() : y[i].real();
        c.subEvaluations++;
        std::ostringstream w;
        w << when << ": column " << col.spec.name << " row " << row << " (block " << row / B()
          << ") sample " << i << (p ? " imag" : " real") << " reads " << got;
        if (cell.unknown) continue;
        if (!cell.written) {
          CHECK(std::fabs(got) <= 1e-5 * konst, "unwritten-not-zero",
                w.str() << ", but the row was never written; history:" << trace);
          continue;
        }
        // before it is encoded, a weight may still have its own value per
        // polarization
        double base = p ? cell.base[i].imag() : cell.base[i].real();
        if (!std::isfinite(base)) {
          CHECK(!std::isfinite(got), "not-last-value", w.str() << ", written " << base << "; history:" << trace);
          continue;
        }
        if (cell.exact) {
          CHECK(base == got, "value-changed", w.str() << ", was " << base
                                                      << " and nothing was written since; history:" << trace);
          continue;
        }
        bool ok = std::fabs(got - base) <= tol;
        if (!ok && col.spec.weight && weightUnmerged.count({ci, row})) {
          // still in a buffer: each polarization can have its own value, which
          // is not below the minimum
          ok = got >= base && got <= konst * 1.0001;
        }
        CHECK(ok, "not-last-value", w.str() << ", last value written " << base << ", tolerance " << tol
                                            << "; history:" << trace);
      }
  }

  void get(size_t ci, size_t row, const char *when = "get") {
    trace += " G" + std::to_string(ci) + ":" + std::to_string(row);
    check(ci, row, read(ci, row), when);
  }

  void getRange(size_t ci, size_t first, size_t n) {
    trace += " R" + std::to_string(ci) + ":" + std::to_string(first) + "+" + std::to_string(n);
    Column &col = cols[ci];
    for (size_t r = first; r < first + n; ++r) touch(col, r / B(), false);
    gets += n;
    const Slicer s(casacore::IPosition(1, ssize_t(first)), casacore::IPosition(1, ssize_t(n)));
    std::vector<cf> v(n * l.visPerRow());
    if (col.spec.weight) {
      casacore::Array<float> a = ArrayColumn<float>(table, col.spec.name).getColumnRange(s);
      size_t i = 0;
      for (float x : a) v[i++] = cf(x, 0);
    } else {
      casacore::Array<Complex> a = ArrayColumn<Complex>(table, col.spec.name).getColumnRange(s);
      std::copy(a.begin(), a.end(), v.begin());
    }
    for (size_t r = 0; r < n; ++r)
      check(ci, first + r, std::vector<cf>(v.begin() + ssize_t(r * l.visPerRow()), v.begin() + ssize_t((r + 1) * l.visPerRow())), "get range");
  }

  void getCells(size_t ci) {
    Column &col = cols[ci];
    casacore::Vector<casacore::rownr_t> rows(size_t(c.range(1, 12)));
    trace += " C" + std::to_string(ci) + ":";
    for (casacore::rownr_t &r : rows) {
      r = c.below(uint32_t(nRows));
      touch(col, r / B(), false);
      trace += std::to_string(r) + ",";
    }
    gets += rows.size();
    const casacore::RefRows ref(rows);
    std::vector<cf> v(rows.size() * l.visPerRow());
    size_t i = 0;
    if (col.spec.weight) {
      for (float x : ArrayColumn<float>(table, col.spec.name).getColumnCells(ref)) v.at(i++) = cf(x, 0);
    } else {
      for (const Complex &x : ArrayColumn<Complex>(table, col.spec.name).getColumnCells(ref)) v.at(i++) = x;
    }
    CHECK(i == v.size(), "size", "not all cells were returned; history:" << trace);
    for (size_t r = 0; r < rows.size(); ++r)
      check(ci, rows[r], std::vector<cf>(v.begin() + ssize_t(r * l.visPerRow()), v.begin() + ssize_t((r + 1) * l.visPerRow())), "get cells");
  }

  // bring the table in a state in which it may be closed
  void makeClosable() {
    if (offsets || !anyWritten()) return;
    while (nRows < B()) addRows(1);
    for (size_t r = 0; r < B(); ++r)
      if (!cols[0].cells[r].written) put(0, r);
  }

  void reopen(const char *why) {
    trace += " X";
    const bool hadData = offsets || anyWritten();
    {
      Silence s;
      table = Table();
    }
    for (auto &col : cols) {
      if (col.changed) stored(col, col.current);
      col.changed = false;
      col.current = SIZE_MAX;
    }
    weightUnmerged.clear();
    if (hadData) offsets = true;
    {
      Silence s;
      // (also opened for reading first)
      const unsigned how = c.below(4);
      table = Table(path(), how == 3 ? Table::Old : Table::Update);
      if (how == 3) {
        if (nRows && c.chance(1, 2)) get(c.below(uint32_t(cols.size())), c.below(uint32_t(nRows)));
        table.reopenRW();
        trace += "rw";
      }
    }
    CHECK(table.nrow() == nRows, "row-count", "table has " << table.nrow() << " rows after reopening, expected " << nRows);
    ++reopens;
    (void)why;
  }

  // Read everything; from now on the values are known exactly.
  void checkAll() {
    for (size_t ci = 0; ci < cols.size(); ++ci)
      for (size_t r = 0; r < nRows; ++r) {
        const std::vector<cf> y = read(ci, r);
        check(ci, r, y, "full read");
        Cell &cell = cols[ci].cells[r];
        if (cell.written && !cell.unknown && !cols[ci].changed && reopens > 0 && !cell.exact &&
            !weightUnmerged.count({ci, r})) {
          // only if the value can not be in a buffer or in flight
          if (fresh) {
            cell.base = y;
            cell.exact = true;
            cell.visits = 0;
          }
        }
      }
  }

  void addRows(size_t n) {
    n = std::min(n, l.nRows() - nRows);
    if (n == 0) return;
    table.addRow(casacore::rownr_t(n));
    fillMeta(table, l, nRows, n);
    nRows += n;
    trace += " A" + std::to_string(n);
  }

  void step() {
    fresh = false;
    const size_t ci = c.below(uint32_t(cols.size()));
    switch (c.weighted({10, 6, 5, 3, 2, 2, 2, 1, 2, 2, 2})) {
      case 0: {  // next unwritten row, in order
        Column &col = cols[ci];
        size_t r = 0;
        while (r < nRows && col.cells[r].written) ++r;
        const size_t n = size_t(c.sized(1, 4, 60));
        for (size_t i = 0; i < n; ++i, ++r) {
          if (r >= nRows && r < l.nRows() && c.chance(1, 2)) addRows(1);
          if (mayPut(ci, r)) put(ci, r);
        }
        break;
      }
      case 1: {  // random row
        if (nRows == 0) break;
        const size_t r = c.below(uint32_t(nRows));
        if (mayPut(ci, r)) put(ci, r);
        break;
      }
      case 2:
        if (nRows) get(ci, c.below(uint32_t(nRows)));
        break;
      case 3: {  // put and read back, somewhere else in between or not
        if (nRows == 0) break;
        const size_t r = c.below(uint32_t(nRows));
        if (!mayPut(ci, r)) break;
        put(ci, r);
        if (c.chance(1, 2)) get(ci, c.below(uint32_t(nRows)));
        if (c.chance(1, 3)) get(c.below(uint32_t(cols.size())), c.below(uint32_t(nRows)));
        get(ci, r, "get after put");
        break;
      }
      case 4: {
        if (nRows == 0) break;
        if (c.chance(1, 3)) {
          getCells(ci);
          break;
        }
        const size_t first = c.below(uint32_t(nRows));
        getRange(ci, first, 1 + c.below(uint32_t(std::min<size_t>(nRows - first, 20))));
        break;
      }
      case 5:
        addRows(size_t(c.range(1, int(2 * B()))));
        break;
      case 6:
        if (c.chance(1, 2)) {
          makeClosable();
          reopen("");
          fresh = true;
          if (c.chance(2, 3)) checkAll();
        } else {
          table.flush(c.chance(1, 2));
          trace += " F";
        }
        break;
      case 8:
        putRows(ci);
        break;
      case 9:
        if (nRows) getPart(ci, c.below(uint32_t(nRows)));
        break;
      case 10: {
        if (nRows == 0) break;
        const size_t r = c.below(uint32_t(nRows));
        if (mayPut(ci, r) && (offsets || r < B())) putPart(ci, r);
        break;
      }
      default:
        checkAll();
    }
  }

  template <typename F>
  void refuse(const std::string &what, F f) {
    trace += " !" + what;
    bool thrown = false;
    try {
      Silence s;
      f();
    } catch (std::exception &) {
      thrown = true;
    }
    CHECK(thrown, "not-refused", what << " was not refused; " << k.text() << ", " << l.text() << "; history:" << trace);
    c.label("refused " + what);
    ++refused;
  }

  // A request that has to be refused, after which everything is as before.
  void invalidRequest() {
    const size_t ci = c.below(uint32_t(cols.size()));
    const std::string &name = cols[ci].spec.name;
    const IPosition shape(2, ssize_t(l.nPol), ssize_t(l.nChan));
    switch (c.below(6)) {
      case 0: {  // another column in the same manager
        if (!anyWritten()) break;
        refuse("a column in a manager with data", [&] {
          casacore::ArrayColumnDesc<Complex> d("EXTRA_DATA", "", "DyscoStMan", k.name, shape);
          d.setOptions(casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape);
          table.addColumn(d, casacore::String(k.name), true);
        });
        // this may store the current blocks
        if (offsets)
          for (auto &col : cols) {
            if (col.changed) stored(col, col.current);
            col.changed = false;
            col.current = SIZE_MAX;
          }
        CHECK(!table.tableDesc().isColumn("EXTRA_DATA"), "column-left", "the refused column is in the table description");
        break;
      }
      case 1: {  // the wrong row; if it is refused by the first manager, nothing was removed
        if (nRows < 2 || !dyscoFirst) break;
        const size_t r = c.below(uint32_t(nRows - 1));
        refuse("removing a row in the middle", [&] { table.removeRow(casacore::rownr_t(r)); });
        CHECK(table.nrow() == nRows, "row-count", "refusing to remove a row changed the number of rows");
        break;
      }
      case 2: {  // an antenna that was not in the first block
        if (nRows == 0 || k.norm != ref::AF || cols[ci].spec.weight) break;
        const size_t r = c.below(uint32_t(nRows));
        if (!mayPut(ci, r) || (!offsets && r >= B())) break;
        const char *antenna = c.chance(1, 2) ? "ANTENNA1" : "ANTENNA2";
        const int bad = offsets ? c.pick({-1, int(l.maxAnt()) + 1, int(l.maxAnt()) + 100, INT32_MAX, INT32_MIN})
                                : c.pick({-1, INT32_MIN, -100});
        casacore::ScalarColumn<int> ant(table, antenna);
        const int was = ant(r);
        ant.put(r, bad);
        const std::vector<cf> v = value(ci, r, c.below(64));
        refuse("an unknown antenna", [&] { putVis(table, name, r, l, v); });
        ant.put(r, was);
        break;
      }
      case 3: {  // another shape
        if (nRows == 0) break;
        const size_t r = c.below(uint32_t(nRows));
        IPosition s = shape;
        s[ssize_t(c.below(2))] += c.pick({1, -1, 5});
        refuse("an array with another shape", [&] {
          if (cols[ci].spec.weight)
            ArrayColumn<float>(table, name).put(r, casacore::Array<float>(s, 1.0f));
          else
            ArrayColumn<Complex>(table, name).put(r, casacore::Array<Complex>(s, Complex(1, 1)));
        });
        break;
      }
      case 4: {  // a column that Dysco can not store, in a manager of its own
        Config bad = k;
        bad.name = "Dysco2";
        const int kind = int(c.below(5));
        refuse("an unsupported column", [&] {
          auto add = [&](casacore::ColumnDesc d, int options) {
            if (options >= 0) d.setOptions(options);
            auto m = makeStMan(bad);
            table.addColumn(d, *m);
          };
          const int direct = casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape;
          switch (kind) {
            case 0: add(casacore::ArrayColumnDesc<casacore::DComplex>("EXTRA", "", "DyscoStMan", "Dysco2", shape), direct); break;
            case 1: add(casacore::ArrayColumnDesc<float>("EXTRA", "", "DyscoStMan", "Dysco2", shape), direct); break;
            case 2: add(casacore::ScalarColumnDesc<float>("EXTRA", "", "DyscoStMan", "Dysco2"), -1); break;
            case 3: add(casacore::ArrayColumnDesc<Complex>("EXTRA", "", "DyscoStMan", "Dysco2", 2), 0); break;
            default:
              bad.dataBits = c.pick({0u, 1u, 5u, 7u, 32u, 264u});
              add(casacore::ArrayColumnDesc<Complex>("EXTRA", "", "DyscoStMan", "Dysco2", shape), direct);
          }
        });
        CHECK(!table.tableDesc().isColumn("EXTRA"), "column-left", "the refused column is in the table description");
        break;
      }
      default: {  // removing rows at the end is supported
        if (!offsets || nRows <= B() || !c.chance(1, 2)) break;
        --nRows;
        trace += " D";
        table.removeRow(casacore::rownr_t(nRows));
        for (auto &col : cols)
          if (col.cells[nRows].written) col.cells[nRows].unknown = true;
        CHECK(table.nrow() == nRows, "row-count", "removing the last row gives " << table.nrow() << " rows");
        c.label("removed the last row");
      }
    }
  }

  // after the final reopen: the file must decode to what the table returned
  void checkFile() {
    fresh = true;
    checkAll();
    const ref::File f = ref::parse(ref::slurp(dyscoFile(path(), &k.name)));
    if (f.rowsPerBlock == 0) {
      CHECK(!anyWritten(), "nothing-stored", "rows were written but the file has no blocks");
      return;
    }
    CHECK(f.rowsPerBlock == B(), "rows-per-block", "file has " << f.rowsPerBlock << " rows per block, expected " << B());
    for (size_t ci = 0; ci < cols.size(); ++ci) {
      size_t index = 0;
      while (order[index].name != cols[ci].spec.name) ++index;
      for (size_t b = 0; b < f.nBlocks(); ++b) {
        const BlockValues v = decodeBlock(f, l, order, index, b);
        for (size_t r = 0; r < B() && b * B() + r < nRows; ++r) {
          const std::vector<cf> y = read(ci, b * B() + r);
          for (size_t i = 0; i < l.visPerRow(); ++i) {
            c.subEvaluations++;
            CHECK(sameValue(v.re[r][i], y[i].real(), v.factor[r][i]) &&
                      sameValue(v.im[r][i], y[i].imag(), v.factor[r][i]),
                  "file-mismatch", "column " << cols[ci].spec.name << " row " << b * B() + r << " sample " << i
                                             << " reads " << y[i] << ", the file has (" << v.re[r][i] << ","
                                             << v.im[r][i] << "); history:" << trace);
          }
        }
      }
    }
  }

  Ctx &c;
  HistoryOptions opt;
  Layout l;
  Config k;
  Table table;
  std::vector<Column> cols;
  std::vector<ColumnSpec> order;
  std::set<std::pair<size_t, size_t>> weightUnmerged;
  double konst = 1, gapRel = 0;
  bool nan = false, offsets = false, fresh = false, dyscoFirst = false;
  size_t refused = 0;
  size_t nRows = 0;
  size_t puts = 0, gets = 0, reopens = 0, overwrites = 0;
  std::string trace;
};

}  // namespace

void history(Ctx &c, const HistoryOptions &o) {
  History h(c, o);
  h.run();
}
