// Properties of tables with Dysco columns that are written, closed and
// reopened: table-level facets of C01-C03, C06-C10, and the histories of C12.
#include <cstring>
#include <fstream>

#include "history.h"
#include "tables.h"

using namespace pbt;
using namespace kit;
using casacore::Table;

namespace {

struct Written {
  Data d;
  std::string path;
  ref::File f;
  Table t;
  std::vector<Vis> got;  // per column
};

void writeAndRead(Ctx &c, Written &w) {
  const int mode = int(c.below(kWriteModes));
  const bool grow = c.chance(1, 3);
  w.path = c.scratch() + "/t.ms";
  c.note(w.d.text()).note(", written ").note(writeMode(mode)).note(grow ? ", growing" : "");
  writeTable(w.path, w.d, mode, grow);
  w.f = ref::parse(ref::slurp(dyscoFile(w.path)));
  Silence s;
  w.t = Table(w.path, c.chance(1, 2) ? Table::Old : Table::Update);
  CHECK(w.t.nrow() == w.d.nRows, "row-count", "table has " << w.t.nrow() << " rows after reopening");
  for (size_t i = 0; i < w.d.cols.size(); ++i) w.got.push_back(readColumn(w.t, w.d, i));
  c.label(w.d.k.norm == ref::AF ? "AF" : w.d.k.norm == ref::RF ? "RF" : "Row");
}
bool interesting(const Data &d) {
  for (auto &v : d.vis) {
    size_t nonzero = 0;
    for (auto &row : v)
      for (auto &x : row)
        if (x != cf(0, 0) && std::isfinite(x.real())) ++nonzero;
    if (nonzero >= 2) return true;
  }
  return false;
}

void tableAccuracy(Ctx &c) {
  Written w;
  w.d = genData(c);
  writeAndRead(c, w);
  for (size_t i = 0; i < w.d.cols.size(); ++i)
    if (!w.d.cols[i].weight) checkColumnAccuracy(c, w.d, i, w.f, w.got[i], "after reopening");
  if (interesting(w.d)) c.nontrivial();
}
TFACET("C01", "table", tableAccuracy, 260, 1400, 24000,
      "random settings, layout, columns and visibilities written to a table in one of six ways, "
      "closed and reopened; every finite component compared with the two levels around it times "
      "the factor in the file (decoded independently; for Row/RF the factor is bounded by the "
      "data); non-trivial: two non-zero finite values");

void tableNonFinite(Ctx &c) {
  Written w;
  w.d = genShape(c);
  const bool partial = c.chance(1, 2);
  size_t nBad = 0, nOk = 0;
  for (size_t col = 0; col < w.d.cols.size(); ++col) {
    VisOpts o;
    o.nonFinite = !partial;
    genColumn(c, w.d, col, o);
    if (w.d.cols[col].weight) continue;
    if (partial) {
      Expand e(c.raw());
      const uint32_t density = 1 + e.below(10);
      for (auto &row : w.d.vis[col])
        for (cf &x : row) {
          const float bad = e.below(2) ? NAN : e.below(2) ? INFINITY : -INFINITY;
          if (e.below(density) != 0) continue;
          if (e.below(2)) x.real(bad);
          else x.imag(bad);
        }
    }
  }
  writeAndRead(c, w);
  const Layout &l = w.d.l;
  const size_t B = l.rowsPerBlock();
  for (size_t col = 0; col < w.d.cols.size(); ++col) {
    if (w.d.cols[col].weight) continue;
    const Vis &v = w.d.vis[col], &y = w.got[col];
    for (size_t b = 0; b * B < w.d.nRows; ++b) {
      const size_t end = std::min(w.d.nRows, (b + 1) * B);
      std::vector<char> chOk(l.visPerRow(), 0);
      // (rows that do not exist count as zeros)
      if (end != (b + 1) * B) chOk.assign(l.visPerRow(), 1);
      for (size_t r = b * B; r < end; ++r)
        for (size_t i = 0; i < l.visPerRow(); ++i)
          if (std::isfinite(v[r][i].real()) && std::isfinite(v[r][i].imag())) chOk[i] = 1;
      for (size_t r = b * B; r < end; ++r) {
        bool rowOk = false;
        std::vector<char> rowPolOk(l.nPol, 0);
        for (size_t i = 0; i < l.visPerRow(); ++i)
          if (std::isfinite(v[r][i].real()) && std::isfinite(v[r][i].imag())) rowOk = true, rowPolOk[i % l.nPol] = 1;
        for (size_t i = 0; i < l.visPerRow(); ++i)
          for (int p = 0; p < 2; ++p) {
            const float x = p ? v[r][i].imag() : v[r][i].real(), g = p ? y[r][i].imag() : y[r][i].real();
            c.subEvaluations++;
            auto where = [&]() {
              std::ostringstream s;
              s << w.d.text() << ": column " << w.d.cols[col].name << " row " << r << " sample " << i
                << (p ? " imag" : " real") << ": " << x << " is read as " << g;
              return s.str();
            };
            if (!std::isfinite(x)) {
              ++nBad;
              CHECK(!std::isfinite(g), "became-finite", where());
            } else {
              ++nOk;
              const bool ok = w.d.k.norm == ref::AF   ? chOk[i]
                              : w.d.k.norm == ref::RF ? chOk[i] && rowPolOk[i % l.nPol]
                                                      : rowOk;
              if (ok) CHECK(std::isfinite(g), "became-nonfinite", where());
            }
          }
      }
    }
    if (!partial) checkColumnAccuracy(c, w.d, col, w.f, y, "with non-finite values");
  }
  if (nBad && nOk) c.nontrivial();
}
TFACET("C02", "table", tableNonFinite, 260, 1200, 20000,
      "tables with NaN/Inf in one or both components of random samples, rows, channels or "
      "antennas; after reopening finiteness of every component and accuracy of the finite ones; "
      "non-trivial: both finite and non-finite components");

void tableWeights(Ctx &c) {
  Written w;
  DataOpts o;
  o.needData = false;
  do {
    w.d = genShape(c, o);
    if (w.d.cols.size() == 1 && !w.d.cols[0].weight) {
      w.d.cols[0] = {"WEIGHT_SPECTRUM", true};
    }
    bool any = false;
    for (auto &x : w.d.cols) any |= x.weight;
    if (!any) w.d.cols[0] = {"WEIGHT_SPECTRUM", true};
  } while (false);
  for (size_t i = 0; i < w.d.cols.size(); ++i) genColumn(c, w.d, i);
  writeAndRead(c, w);
  for (size_t i = 0; i < w.d.cols.size(); ++i)
    if (w.d.cols[i].weight) {
      checkWeightColumn(c, w.d, i, w.got[i], "after reopening");
      for (auto &row : w.d.w[i])
        for (float x : row)
          if (x != 0) c.nontrivial();
    }
}
TFACET("C03", "table", tableWeights, 200, 1400, 24000,
      "tables with a weight column, alone or with data columns: values after reopening are the "
      "minimum over the polarizations, rounded to a grid whose step follows from the written "
      "weights of the time block alone; non-trivial: a non-zero weight");

// ------------------------------------------------------------------ C10
void layoutOnDisk(Ctx &c) {
  Written w;
  DataOpts o;
  o.needData = false;
  o.maxData = 4;
  w.d = genData(c, o);
  writeAndRead(c, w);
  const Data &d = w.d;
  const Layout &l = d.l;
  const ref::File &f = w.f;
  const std::string txt = d.text();
  CHECK(f.major == 1 && f.minor == 0, "version", txt << ": version " << f.major << "." << f.minor);
  CHECK(f.name == d.k.name, "name", txt << ": name in file is " << f.name);
  CHECK(f.columnCount == d.cols.size(), "column-count", txt << ": " << f.columnCount << " columns in file");
  CHECK(f.dataBits == d.k.dataBits && f.weightBits == d.k.weightBits, "bits",
        txt << ": file has " << int(f.dataBits) << " and " << int(f.weightBits) << " bits");
  CHECK(f.dist == d.k.dist && f.norm == d.k.norm, "enums",
        txt << ": file has distribution " << int(f.dist) << " and normalization " << int(f.norm));
  if (d.k.dist == ref::StudentT) CHECK(f.nu == d.k.nu, "nu", txt << ": file has nu " << f.nu);
  if (d.k.dist == ref::TruncGaussian) CHECK(f.trunc == d.k.trunc, "trunc", txt << ": file has truncation " << f.trunc);
  CHECK(f.rowsPerBlock == l.rowsPerBlock(), "rows-per-block", txt << ": file has " << f.rowsPerBlock);
  CHECK(f.antennaCount == l.maxAnt() + 1, "antenna-count", txt << ": file has " << f.antennaCount);
  size_t blockSize = 0;
  for (size_t i = 0; i < d.cols.size(); ++i) {
    const size_t s = columnSize(f, l, d.cols[i]);
    CHECK(f.cols[i].blockSize == s, "column-block-size",
          txt << ": column " << i << " has block size " << f.cols[i].blockSize << ", expected " << s);
    CHECK(f.cols[i].headerSize == 12, "column-header-size", txt << ": " << f.cols[i].headerSize);
    CHECK(f.cols[i].antennaCount == f.antennaCount, "column-antenna-count", txt << ": " << f.cols[i].antennaCount);
    blockSize += s;
  }
  CHECK(f.blockSize == blockSize, "block-size", txt << ": file has block size " << f.blockSize << ", expected " << blockSize);
  CHECK(f.bytes.size() == f.headerSize + blockSize * d.nBlocks(), "file-size",
        txt << ": file has " << f.bytes.size() << " bytes, header " << f.headerSize << ", " << d.nBlocks()
            << " blocks of " << blockSize);
  for (size_t i = 0; i < d.cols.size(); ++i)
    for (size_t b = 0; b < d.nBlocks(); ++b) {
      const BlockValues v = decodeBlock(f, l, d.cols, i, b);
      for (size_t r = 0; r < f.rowsPerBlock && b * f.rowsPerBlock + r < d.nRows; ++r)
        for (size_t s = 0; s < l.visPerRow(); ++s) {
          const cf g = w.got[i][b * f.rowsPerBlock + r][s];
          c.subEvaluations++;
          CHECK(sameValue(v.re[r][s], g.real(), v.factor[r][s]) && sameValue(v.im[r][s], g.imag(), v.factor[r][s]),
                "value", txt << ": column " << d.cols[i].name << " row " << b * f.rowsPerBlock + r << " sample " << s
                             << " reads " << g << ", the bytes mean (" << v.re[r][s] << "," << v.im[r][s] << ")");
        }
      // unused bits at the end of the packed symbols
    }
  if (d.cols.size() > 1 || interesting(d)) c.nontrivial();
}
TFACET("C10", "layout", layoutOnDisk, 300, 900, 30000,
      "tables with 1-5 columns in random order: all header fields, column headers, block and file "
      "sizes, and every value compared with an independent decoder working on the bytes; "
      "non-trivial: non-zero values or more than one column");

// ------------------------------------------------------------------ C06
// Identical time blocks: the mean over the blocks is the value itself.
void tableMean(Ctx &c) {
  Data d;
  d.k = genConfig(c);
  d.k.norm = c.pick({ref::Row, ref::RF, ref::AF});
  d.k.staticSeed = c.chance(1, 4);
  DataOpts o;
  o.layout.minTime = o.layout.maxTime = 1;
  o.layout.maxRows = 10;
  o.layout.big = false;
  o.layout.wide = 0;
  o.layout.autos = false;
  d.l = genLayout(c, o.layout);
  if (d.l.baselines.size() > 6) d.l.baselines.resize(6);
  if (d.l.nChan > 4) d.l.nChan = 4;
  d.cols = {{"DATA", false}};
  d.vis.resize(1);
  d.w.resize(1);
  VisOpts vo;
  vo.nonFinite = false;
  vo.gainRange = 3;
  d.vis[0] = genVis(c, d.l, vo);
  const size_t N = 150, B = d.l.rowsPerBlock();
  for (size_t b = 1; b < N; ++b) {
    d.l.times.push_back(d.l.times.back() + 1);
    d.l.fields.push_back(0);
    d.l.ddids.push_back(0);
    for (size_t r = 0; r < B; ++r) d.vis[0].push_back(d.vis[0][r]);
  }
  d.l.nTime = N;
  d.nRows = B * N;
  c.note(d.text());
  writeTable(c.scratch() + "/t.ms", d, 0, false);
  const ref::File f = ref::parse(ref::slurp(dyscoFile(c.scratch() + "/t.ms")));
  Silence s;
  Table t(c.scratch() + "/t.ms");
  const Vis y = readColumn(t, d, 0);
  const BlockValues bv = decodeBlock(f, d.l, d.cols, 0, 0);
  const std::vector<double> lv = d.k.levels();
  size_t between = 0;
  for (size_t r = 0; r < B; ++r)
    for (size_t i = 0; i < d.l.visPerRow(); ++i)
      for (int p = 0; p < 2; ++p) {
        const double x = p ? d.vis[0][r][i].imag() : d.vis[0][r][i].real();
        const double fac = bv.factor[r][i];
        if (fac == 0) continue;
        const double u = x / fac;
        auto it = std::upper_bound(lv.begin(), lv.end(), u);
        if (it == lv.begin() || it == lv.end()) continue;
        const double lo = *(it - 1), hi = *it, q = (u - lo) / (hi - lo);
        size_t up = 0;
        for (size_t b = 0; b < N; ++b) {
          const double g = p ? y[b * B + r][i].imag() : y[b * B + r][i].real();
          if (g / fac > 0.5 * (lo + hi)) ++up;
        }
        // rounding of the factors shifts q a little
        const double slack = 3e-5 * std::max(std::fabs(u), 1.0) / (hi - lo);
        const double sigma = std::sqrt(std::max(q * (1 - q), 1.0 / double(N)) / double(N));
        const double frac = double(up) / double(N);
        c.subEvaluations++;
        if (q > 0.1 && q < 0.9) ++between;
        CHECK(std::fabs(frac - q) <= 7 * sigma + slack, "biased",
              d.text() << ": row " << r << " sample " << i << ": value " << u << " lies at " << q << " between levels "
                       << lo << " and " << hi << ", but the upper one was stored in " << up << " of " << N << " blocks");
      }
  if (between >= 2) c.nontrivial();
}
TFACET("C06", "table_mean", tableMean, 160, 300, 2000,
      "150 identical time blocks written through a table: per component the fraction of blocks "
      "that store the upper of the two levels equals the position of the value between them (7 "
      "sigma); non-trivial: two values well between levels");

// ------------------------------------------------------------------ C07
void tableFullRange(Ctx &c) {
  Written w;
  w.d = genData(c);
  writeAndRead(c, w);
  const Data &d = w.d;
  const Layout &l = d.l;
  const size_t B = l.rowsPerBlock();
  const double top = d.k.levels().back();
  size_t groups = 0;
  for (size_t col = 0; col < d.cols.size(); ++col) {
    if (d.cols[col].weight) continue;
    for (size_t b = 0; b < d.nBlocks(); ++b) {
      const BlockValues v = decodeBlock(w.f, l, d.cols, col, b);
      const size_t end = std::min(B, d.nRows - b * B);
      auto rel = [&](size_t r, size_t i) {  // largest component in units of the factor
        const cf x = d.vis[col][b * B + r][i];
        const double f = std::fabs(v.factor[r][i]);
        if (!std::isfinite(x.real()) || !std::isfinite(x.imag()) || f == 0) return 0.0;
        return std::max(std::fabs(double(x.real())), std::fabs(double(x.imag()))) / f;
      };
      auto nonzero = [&](size_t r, size_t i) {
        const cf x = d.vis[col][b * B + r][i];
        return std::isfinite(x.real()) && std::isfinite(x.imag()) && x != cf(0, 0);
      };
      auto need = [&](bool has, double mx, double margin, const std::string &what) {
        if (!has) return;
        ++groups;
        c.subEvaluations++;
        CHECK(mx >= top * (1 - margin) && mx <= top * 1.0001, "not-at-outer-level",
              d.text() << ": column " << d.cols[col].name << " block " << b << ": largest value of " << what
                       << " is " << mx << " in units of its scale factor, largest level is " << top);
      };
      if (d.k.norm == ref::Row) {
        for (size_t r = 0; r < end; ++r) {
          bool has = false;
          double mx = 0;
          for (size_t i = 0; i < l.visPerRow(); ++i) has |= nonzero(r, i), mx = std::max(mx, rel(r, i));
          need(has, mx, 3e-5, "row " + std::to_string(r));
        }
      } else {
        for (size_t i = 0; i < l.visPerRow(); ++i) {
          bool has = false;
          double mx = 0;
          for (size_t r = 0; r < end; ++r) {
            if (d.k.norm == ref::AF) {
              if (l.ant(r).first == l.ant(r).second || v.factor[r][i] == 0) continue;
            }
            has |= nonzero(r, i), mx = std::max(mx, rel(r, i));
          }
          need(has, mx, d.k.norm == ref::AF ? 0.02 : 3e-5,
               "channel " + std::to_string(i / l.nPol) + " pol " + std::to_string(i % l.nPol));
        }
        if (d.k.norm == ref::RF)
          for (size_t r = 0; r < end; ++r)
            for (size_t p = 0; p < l.nPol; ++p) {
              bool has = false;
              double mx = 0;
              for (size_t i = p; i < l.visPerRow(); i += l.nPol) has |= nonzero(r, i), mx = std::max(mx, rel(r, i));
              need(has, mx, 1.0, "row");
            }
      }
    }
  }
  if (groups >= 2) c.nontrivial();
}
TFACET("C07", "table", tableFullRange, 260, 600, 20000,
      "tables written, closed and decoded independently: with the factors in the file the largest "
      "value of every row (Row) or channel-polarization (RF, AF cross-correlations) sits at the "
      "outer level and none is beyond it; non-trivial: two groups");

// ------------------------------------------------------------------ C08
void tableScaling(Ctx &c) {
  DataOpts o;
  o.weight = false;
  o.vis.nonFinite = true;
  Data d = genData(c, o);
  d.k.staticSeed = true;
  const int shift = c.range(-20, 20);
  // stay within the range of single precision
  double mx = 0, mn = INFINITY;
  for (auto &v : d.vis)
    for (auto &row : v)
      for (auto &x : row)
        for (double q : {double(x.real()), double(x.imag())})
          if (std::isfinite(q) && q != 0) mx = std::max(mx, std::fabs(q)), mn = std::min(mn, std::fabs(q));
  c.note(d.text()).note(", times 2^").note(shift);
  writeTable(c.scratch() + "/a.ms", d, 0, false);
  Data e = d;
  const float s = float(std::ldexp(1.0, shift));
  for (auto &v : e.vis)
    for (auto &row : v)
      for (auto &x : row) x = cf(x.real() * s, x.imag() * s);
  writeTable(c.scratch() + "/b.ms", e, 0, false);
  Silence q;
  Table a(c.scratch() + "/a.ms"), b(c.scratch() + "/b.ms");
  for (size_t i = 0; i < d.cols.size(); ++i) {
    const Vis x = readColumn(a, d, i), y = readColumn(b, e, i);
    for (size_t r = 0; r < d.nRows; ++r)
      for (size_t k = 0; k < d.l.visPerRow(); ++k)
        for (int p = 0; p < 2; ++p) {
          const float u = p ? x[r][k].imag() : x[r][k].real(), v = p ? y[r][k].imag() : y[r][k].real();
          c.subEvaluations++;
          const double want = double(u) * double(s);
          if (std::fabs(want) < 1e-34 && want != 0) continue;
          CHECK((!std::isfinite(u) && !std::isfinite(v)) || double(v) == want, "scaling",
                d.text() << ": row " << r << " sample " << k << " is " << u << ", and " << v << " when all data are multiplied by "
                         << s);
        }
  }
  if (interesting(d) && shift != 0 && mx > 0) c.nontrivial();
}
TFACET("C08", "table", tableScaling, 260, 600, 10000,
      "a table is written twice with a static seed, the second time with all visibilities "
      "multiplied by a power of two: all values that are read are multiplied by exactly that "
      "factor; non-trivial: non-zero data and factor not one");

// ------------------------------------------------------------------ C09
void tableNoState(Ctx &c) {
  DataOpts o;
  o.needData = false;
  o.layout.minTime = 2;
  o.incomplete = false;
  Data d = genData(c, o);
  d.k.staticSeed = c.chance(1, 2);
  // other contents for all blocks but one
  const size_t keep = c.below(uint32_t(d.l.nTime)), B = d.l.rowsPerBlock();
  Data e = d;
  for (size_t i = 0; i < d.cols.size(); ++i) {
    genColumn(c, e, i);
    for (size_t r = keep * B; r < (keep + 1) * B; ++r) {
      if (d.cols[i].weight) e.w[i][r] = d.w[i][r];
      else e.vis[i][r] = d.vis[i][r];
    }
  }
  c.note(d.text()).note(", block ").note(keep);
  const int mode = int(c.below(kWriteModes));
  writeTable(c.scratch() + "/a.ms", d, mode, false);
  writeTable(c.scratch() + "/b.ms", e, mode, false);
  const ref::File f = ref::parse(ref::slurp(dyscoFile(c.scratch() + "/a.ms"))),
                  g = ref::parse(ref::slurp(dyscoFile(c.scratch() + "/b.ms")));
  size_t off = f.headerSize + keep * size_t(f.blockSize);
  for (size_t i = 0; i < d.cols.size(); ++i) {
    const size_t size = columnSize(f, d.l, d.cols[i]);
    // everything for weights, the scale factors for data
    const size_t n = d.cols[i].weight ? size : 4 * ref::dataMetaCount(d.k.norm, B, d.l.nPol, d.l.nChan, f.antennaCount);
    CHECK(off + size <= f.bytes.size() && off + size <= g.bytes.size(), "size", d.text() << ": file too short");
    c.subEvaluations += n;
    CHECK(std::equal(f.bytes.begin() + ssize_t(off), f.bytes.begin() + ssize_t(off + n), g.bytes.begin() + ssize_t(off)),
          "depends-on-other-blocks", d.text() << ": column " << d.cols[i].name << " block " << keep
                                              << " has other " << (d.cols[i].weight ? "contents" : "scale factors")
                                              << " when the other blocks have other values");
    off += size;
  }
  if (d.l.nTime > 1) c.nontrivial();
}
TFACET("C09", "table", tableNoState, 400, 600, 10000,
      "a table is written twice with different values in all blocks but one: the bytes of the "
      "weights and the scale factors of the data of that block are the same; non-trivial: more "
      "than one block");

// ------------------------------------------------------------------ C12
// Files of more than 2 and 4 GiB: sparse, with a few blocks far from the start.
void farBlocks(Ctx &c) {
  Layout l;
  l.nPol = 4;
  const bool rows = c.chance(1, 2);
  l.nChan = rows ? 6000 + c.below(6000) : 20000 + c.below(12000);
  l.nAnt = 3;
  l.baselines = {{0, 1}, {0, 2}, {1, 2}};
  if (c.chance(1, 3)) l.baselines.pop_back();
  const size_t B = l.rowsPerBlock();
  Config k;
  k.dataBits = c.pick<unsigned>({8, 10, 12, 16});
  k.weightBits = c.pick<unsigned>({8, 12});
  k.dist = ref::Uniform;
  k.norm = c.pick<ref::Norm>({ref::Row, ref::RF});
  k.staticSeed = c.chance(1, 5);
  std::vector<ColumnSpec> cols{{"DATA", false}};
  const int extra = int(c.below(3));
  if (extra == 1) cols.insert(cols.begin(), {"WEIGHT_SPECTRUM", true});
  if (extra == 2) cols.push_back({"MODEL_DATA", false});
  // rough size of a block, to place blocks on both sides of 2 and 4 GiB
  double size = 0;
  for (auto &s : cols)
    size += double(B) * double(l.nChan) * (s.weight ? k.weightBits : 8.0 * k.dataBits) / 8.0;
  const double top = c.pick<double>({2.3, 4.3, 4.3, 6.0}) * (1u << 30);
  l.nTime = size_t(top / size) + 3;
  for (size_t b = 0; b < l.nTime; ++b) {
    l.times.push_back(4.8e9 + 10.0 * double(b));
    l.fields.push_back(0);
    l.ddids.push_back(0);
  }
  c.note(k.text()).note(", ").note(l.nPol).note("x").note(l.nChan).note(" x ").note(l.nTime).note(" blocks of ").note(B);
  const std::string path = c.scratch() + "/t.ms";
  // values of a row: random signs, magnitudes in half an octave times a gain
  const uint64_t seed = uint64_t(c.raw()) << 20;
  auto value = [&](size_t column, size_t row, size_t i) {
    uint64_t x = seed ^ (uint64_t(column + 1) << 56) ^ (uint64_t(row + 1) << 28) ^ i;
    x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
    auto part = [](uint32_t v) { return ((v & 1) ? 1.f : -1.f) * (0.5f + 0.5f * float(v >> 8) / 16777216.f); };
    return cf(part(uint32_t(x)), part(uint32_t(x >> 32)));
  };
  const size_t n = l.visPerRow();
  std::vector<size_t> blocks{0, 1};  // (the second block tells the size of the first)
  auto place = [&](double at) {
    const size_t b = size_t(at / size);
    for (size_t x : {b > 0 ? b - 1 : 0, b, b + 1})
      if (x < l.nTime && c.chance(3, 4)) blocks.push_back(x);
  };
  place(double(1u << 31));
  place(4294967296.0);
  blocks.push_back(l.nTime - 1);
  blocks.push_back(2 + c.below(uint32_t(l.nTime - 2)));
  std::sort(blocks.begin() + 2, blocks.end());
  blocks.erase(std::unique(blocks.begin(), blocks.end()), blocks.end());
  const std::vector<size_t> sorted = blocks;
  if (c.chance(1, 2)) std::reverse(blocks.begin() + 2, blocks.end());  // the far ones first
  auto compare = [&](Table &t, const char *when) {
    for (size_t b : blocks)
      for (size_t r = b * B; r < (b + 1) * B; ++r)
        for (size_t i = 0; i < cols.size(); ++i) {
          if (cols[i].weight) {
            const std::vector<float> got = getWeight(t, cols[i].name, r, l);
            for (size_t v = 0; v < n; ++v) {
              // (one weight per channel: the lowest of the polarizations, all the same here)
              const float want = std::fabs(value(i, r, v / l.nPol).real());
              CHECK(std::fabs(got[v] - want) < 0.05f, "weight", "block " << b << " of " << l.nTime << ", row " << r << " sample " << v
                      << " of " << cols[i].name << ": wrote " << want << ", read " << got[v] << ", " << when);
            }
          } else {
            const std::vector<cf> got = getVis(t, cols[i].name, r, l);
            const float gain = float(1 + b % 7);
            for (size_t v = 0; v < n; ++v) {
              const cf want = value(i, r, v) * gain;
              CHECK(std::fabs(got[v].real() - want.real()) < 0.1f * gain && std::fabs(got[v].imag() - want.imag()) < 0.1f * gain,
                    "value", "block " << b << " of " << l.nTime << ", row " << r << " sample " << v << " of " << cols[i].name
                                      << ": wrote " << want << ", read " << got[v] << ", " << when);
            }
          }
          c.subEvaluations += n;
        }
  };
  std::string file;
  {
    Table t = createTable(path, l, k, cols, l.nTime * B);
    for (size_t b : blocks)
      for (size_t i = 0; i < cols.size(); ++i)
        for (size_t r = b * B; r < (b + 1) * B; ++r) {
          if (cols[i].weight) {
            std::vector<float> w(n);
            for (size_t v = 0; v < n; ++v) w[v] = std::fabs(value(i, r, v / l.nPol).real());
            putWeight(t, cols[i].name, r, l, w);
          } else {
            std::vector<cf> d(n);
            for (size_t v = 0; v < n; ++v) d[v] = value(i, r, v) * float(1 + b % 7);
            putVis(t, cols[i].name, r, l, d);
          }
        }
    if (c.chance(1, 3)) compare(t, "before closing");
  }
  for (auto &e : std::filesystem::directory_iterator(path))
    if (e.is_regular_file() && (file.empty() || e.file_size() > std::filesystem::file_size(file))) file = e.path().string();
  const uint64_t bytes = std::filesystem::file_size(file);
  {
    Table t(path, c.chance(1, 2) ? Table::Old : Table::Update);
    compare(t, "after closing");
    // a block that was never written, in between
    for (size_t b = 1; b + 1 < l.nTime; b += 1 + l.nTime / 7)
      if (!std::binary_search(sorted.begin(), sorted.end(), b))
        for (auto &s : cols)
          if (!s.weight) {
            for (const cf &v : getVis(t, s.name, b * B, l))
              CHECK(v == cf(0), "unwritten", "block " << b << ", never written, has value " << v << " in " << s.name);
          }
  }
  // the file ends right after its last block
  std::ifstream in(file, std::ios::binary);
  std::string start(4096, 0);
  in.read(&start[0], 4096);
  uint32_t headerSize;
  std::memcpy(&headerSize, start.data(), 4);
  CHECK((bytes - headerSize) % l.nTime == 0, "size", "file of " << bytes << " bytes, header of " << headerSize << ", "
                                                       << l.nTime << " blocks of the same size");
  if (bytes > 4294967296ull) c.nontrivial();
}
TFACET("C12", "far", farBlocks, 40, 24, 400,
      "sparse tables of 2 to 6 GiB with blocks written at the start, around 2 and 4 GiB and at the "
      "end, in either order, are read back before and after reopening; unwritten blocks in between "
      "are zero; the file ends after its last block; non-trivial: file larger than 4 GiB");

TFACET("C12", "history", [](Ctx &c) { history(c, HistoryOptions()); }, 330, 900, 60000,
      "random configuration and layout, then 1-60 steps (ordered and random puts, overwrites, gets, "
      "ranges, growing the table, flush, close and reopen) against a model; at the end everything "
      "is read, and the file decoded independently; non-trivial: more than three puts, a get, and "
      "an overwrite or a reopen in the middle");

}  // namespace
