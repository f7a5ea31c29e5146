#include "tables.h"

using namespace casacore;
using namespace pbt;

namespace kit {

namespace {
bool fin(const cf &x) { return std::isfinite(x.real()) && std::isfinite(x.imag()); }
double comp(const cf &x, int p) { return p ? x.imag() : x.real(); }
double maxAbs(const cf &x) {
  return std::max(std::fabs(double(x.real())), std::fabs(double(x.imag())));
}
}  // namespace

std::string Data::text() const {
  std::ostringstream s;
  s << k.text() << ", " << l.text() << ", " << nRows << " rows, columns";
  for (auto &c : cols) s << ' ' << c.name;
  return s.str();
}

Data genShape(Ctx &c, const DataOpts &o) {
  Data d;
  d.k = genConfig(c);
  d.k.staticSeed = c.chance(1, 5);
  d.k.name = c.pick<const char *>({"DyscoStMan", "D", "manager with a long name 0123456789", "Dysco_Data"});
  d.l = genLayout(c, o.layout);
  const bool weight = o.weight && c.chance(1, 2);
  int nData = c.sized(1, std::min(2, o.maxData), o.maxData);
  if (weight && !o.needData && c.chance(1, 4)) nData = 0;
  const char *names[] = {"DATA", "MODEL_DATA", "CORRECTED_DATA", "X"};
  for (int i = 0; i < nData; ++i) d.cols.push_back({names[i], false});
  if (weight)
    d.cols.insert(d.cols.begin() + ssize_t(c.below(uint32_t(d.cols.size() + 1))), {"WEIGHT_SPECTRUM", true});
  d.nRows = d.l.nRows();
  if (o.incomplete && d.l.nTime > 1 && c.chance(1, 5)) d.nRows -= c.below(uint32_t(d.l.rowsPerBlock()));
  d.vis.resize(d.cols.size());
  d.w.resize(d.cols.size());
  return d;
}
void genColumn(Ctx &c, Data &d, size_t i, const VisOpts &o) {
  if (d.cols[i].weight)
    d.w[i] = genWeights(c, d.l);
  else
    d.vis[i] = genVis(c, d.l, o);
}
Data genData(Ctx &c, const DataOpts &o) {
  Data d = genShape(c, o);
  for (size_t i = 0; i < d.cols.size(); ++i) genColumn(c, d, i, o.vis);
  return d;
}

const char *writeMode(int mode) {
  const char *names[] = {"row by row", "row by row, last column first", "block by block",
                         "column by column", "whole columns", "ranges of one block"};
  return names[mode];
}

void putCell(Table &t, const Data &d, size_t i, size_t r) {
  if (d.cols[i].weight)
    putWeight(t, d.cols[i].name, r, d.l, d.w[i][r]);
  else
    putVis(t, d.cols[i].name, r, d.l, d.vis[i][r]);
}

namespace {
template <typename T, typename V>
Array<T> rowsArray(const Data &d, const V &v, size_t first, size_t n) {
  Array<T> a(IPosition(3, ssize_t(d.l.nPol), ssize_t(d.l.nChan), ssize_t(n)));
  T *p = a.data();
  for (size_t r = first; r < first + n; ++r) p = std::copy(v[r].begin(), v[r].end(), p);
  return a;
}
}  // namespace

void writeTable(const std::string &path, const Data &d, int mode, bool grow) {
  Silence s;
  const size_t B = d.l.rowsPerBlock(), n = d.nRows;
  if (mode == 3 || mode == 4) grow = false;
  Table t = createTable(path, d.l, d.k, d.cols, grow ? 0 : n);
  auto need = [&](size_t rows) {
    if (grow && t.nrow() < rows) {
      const size_t first = t.nrow();
      t.addRow(casacore::rownr_t(rows - first));
      fillMeta(t, d.l, first, rows - first);
    }
  };
  switch (mode) {
    case 0:
    case 1:
      for (size_t r = 0; r < n; ++r) {
        need(r + 1);
        for (size_t i = 0; i < d.cols.size(); ++i)
          putCell(t, d, mode == 0 ? i : d.cols.size() - 1 - i, r);
      }
      break;
    case 2:
      for (size_t b = 0; b * B < n; ++b) {
        const size_t end = std::min(n, (b + 1) * B);
        need(end);
        for (size_t i = 0; i < d.cols.size(); ++i)
          for (size_t r = b * B; r < end; ++r) putCell(t, d, i, r);
      }
      break;
    case 3:
      for (size_t i = 0; i < d.cols.size(); ++i)
        for (size_t r = 0; r < n; ++r) putCell(t, d, i, r);
      break;
    case 4:
      for (size_t i = 0; i < d.cols.size(); ++i)
        if (d.cols[i].weight)
          ArrayColumn<float>(t, d.cols[i].name).putColumn(rowsArray<float>(d, d.w[i], 0, n));
        else
          ArrayColumn<Complex>(t, d.cols[i].name).putColumn(rowsArray<Complex>(d, d.vis[i], 0, n));
      break;
    default:
      for (size_t b = 0; b * B < n; ++b) {
        const size_t end = std::min(n, (b + 1) * B), m = end - b * B;
        need(end);
        const Slicer range(IPosition(1, ssize_t(b * B)), IPosition(1, ssize_t(m)));
        for (size_t i = 0; i < d.cols.size(); ++i)
          if (d.cols[i].weight)
            ArrayColumn<float>(t, d.cols[i].name).putColumnRange(range, rowsArray<float>(d, d.w[i], b * B, m));
          else
            ArrayColumn<Complex>(t, d.cols[i].name).putColumnRange(range, rowsArray<Complex>(d, d.vis[i], b * B, m));
      }
  }
}

std::vector<cf> readCell(Table &t, const Data &d, size_t i, size_t r) {
  if (!d.cols[i].weight) return getVis(t, d.cols[i].name, r, d.l);
  std::vector<cf> v;
  for (float x : getWeight(t, d.cols[i].name, r, d.l)) v.push_back(cf(x, 0));
  return v;
}
Vis readColumn(Table &t, const Data &d, size_t i) {
  Vis v(t.nrow());
  for (size_t r = 0; r < v.size(); ++r) v[r] = readCell(t, d, i, r);
  return v;
}
bool identical(const std::vector<cf> &a, const std::vector<cf> &b) {
  if (a.size() != b.size()) return false;
  auto same = [](float x, float y) { return x == y || (std::isnan(x) && std::isnan(y)); };
  for (size_t i = 0; i < a.size(); ++i)
    if (!same(a[i].real(), b[i].real()) || !same(a[i].imag(), b[i].imag())) return false;
  return true;
}

void checkColumnAccuracy(Ctx &c, const Data &d, size_t col, const ref::File &f, const Vis &got,
                         const std::string &when, size_t firstRow, size_t endRow) {
  const Layout &l = d.l;
  const size_t B = f.rowsPerBlock;
  CHECK(B != 0, "no-blocks", d.text() << ": " << when << ": the file has no blocks");
  std::vector<double> lv;
  endRow = std::min(endRow, d.nRows);
  BlockValues bv;
  size_t loaded = SIZE_MAX;
  for (size_t r = firstRow; r < endRow; ++r) {
    if (lv.empty()) lv = d.k.levels();
    const size_t b = r / B;
    if (b != loaded) bv = decodeBlock(f, l, d.cols, col, b), loaded = b;
    double rowMax = 0;
    for (const cf &x : d.vis[col][r])
      if (fin(x)) rowMax = std::max(rowMax, maxAbs(x));
    for (size_t i = 0; i < l.visPerRow(); ++i) {
      const cf &x = d.vis[col][r][i];
      if (!fin(x)) continue;
      const double fac = bv.factor[r % B][i];
      const bool isAuto = l.ant(r).first == l.ant(r).second;
      for (int p = 0; p < 2; ++p) {
        const double v = comp(x, p), y = comp(got[r][i], p);
        c.subEvaluations++;
        auto where = [&]() {
          std::ostringstream w;
          w << d.text() << ": " << when << ": column " << d.cols[col].name << " row " << r << " ("
            << l.ant(r).first << "-" << l.ant(r).second << ") channel " << i / l.nPol << " pol "
            << i % l.nPol << (p ? " imag" : " real");
          return w.str();
        };
        if (d.k.norm != ref::AF)
          CHECK(std::fabs(fac) <= rowMax / lv.back() * 1.00001, "factor",
                where() << ": scale factor " << fac << " is larger than required for a row with maximum " << rowMax);
        CHECK(std::isfinite(y), "became-nonfinite", where() << ": " << v << " is read as " << y);
        if (d.k.norm == ref::AF && isAuto && fac != 0.0 && std::fabs(v / fac) >= lv.back()) {
          const double edge = (v / fac > 0 ? 1 : -1) * lv.back() * fac;
          CHECK(std::fabs(y - edge) <= 1e-4 * std::fabs(edge), "auto-clip",
                where() << ": " << v << " is read as " << y << ", outer level is " << edge);
          continue;
        }
        const std::string s = checkStep(lv, fac, v, y);
        CHECK(s.empty(), "step", where() << ": " << s);
      }
    }
  }
}

void checkWeightColumn(Ctx &c, const Data &d, size_t col, const Vis &got, const std::string &when,
                       size_t firstRow, size_t endRow) {
  const Layout &l = d.l;
  const size_t B = l.rowsPerBlock();
  endRow = std::min(endRow, d.nRows);
  const double q = double((size_t(1) << d.k.weightBits) - 1);
  for (size_t b = firstRow / B; b * B < endRow; ++b) {
    auto minimum = [&](size_t r, size_t ch) {
      float m = d.w[col][r][ch * l.nPol];
      for (size_t p = 1; p < l.nPol; ++p) m = std::min(m, d.w[col][r][ch * l.nPol + p]);
      return double(m);
    };
    const size_t end = std::min(d.nRows, (b + 1) * B);
    double mx = 0;
    for (size_t r = b * B; r < end; ++r)
      for (size_t ch = 0; ch < l.nChan; ++ch) mx = std::max(mx, minimum(r, ch));
    const double step = mx / q;
    for (size_t r = std::max(firstRow, b * B); r < std::min(end, endRow); ++r)
      for (size_t ch = 0; ch < l.nChan; ++ch) {
        const double m = minimum(r, ch), y = got[r][ch * l.nPol].real();
        c.subEvaluations++;
        auto where = [&]() {
          std::ostringstream w;
          w << d.text() << ": " << when << ": row " << r << " channel " << ch;
          return w.str();
        };
        for (size_t p = 1; p < l.nPol; ++p)
          CHECK(got[r][ch * l.nPol + p].real() == y, "pols-differ",
                where() << ": polarization " << p << " is " << got[r][ch * l.nPol + p].real() << ", first is " << y);
        CHECK(std::fabs(y - m) <= step * 0.5 * (1 + 1e-5) + 1e-6 * m, "half-step",
              where() << ": weight " << m << " is read as " << y << ", step is " << step);
        CHECK(y >= 0, "negative", where() << ": weight " << y);
        if (m == 0) CHECK(y == 0, "zero", where() << ": zero weight is read as " << y);
        if (m == mx && mx > 0)
          CHECK(std::fabs(y - mx) <= 1.5e-7 * mx, "maximum", where() << ": largest weight " << mx << " is read as " << y);
        if (step > 0) {
          const double n = y / step;
          CHECK(std::fabs(n - std::round(n)) <= 1e-6 * (q + 1), "not-on-grid",
                where() << ": weight " << y << " is not a multiple of " << step);
        }
      }
  }
}

}  // namespace kit
