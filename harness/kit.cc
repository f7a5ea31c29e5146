#include "kit.h"

#include <tuple>

namespace fs = std::filesystem;
using namespace casacore;

namespace kit {

struct Registration {
  Registration() {
    register_dyscostman();
    // (see unregister.cc)
    if (casacore::DataManager::getCtor("DyscoStMan") != dyscostman::DyscoStMan::makeObject) {
      std::cerr << "another DyscoStMan is registered\n";
      exit(2);
    }
  }
} registration;

static const char *distNames[] = {"Gaussian", "Uniform", "StudentT", "TruncatedGaussian"};
static const char *normNames[] = {"AF", "RF", "Row"};

std::string Config::text() const {
  std::ostringstream s;
  s << "data=" << dataBits << "b weight=" << weightBits << "b " << distNames[dist];
  if (dist == ref::TruncGaussian) s << "(" << trunc << ")";
  if (dist == ref::StudentT) s << "(nu=" << nu << ")";
  s << " " << normNames[norm] << (staticSeed ? " static-seed" : "") << " name=" << name;
  return s.str();
}
std::string Layout::text() const {
  std::ostringstream s;
  s << nPol << "pol x " << nChan << "ch, " << nAnt << " ant, " << baselines.size()
    << " rows/block, " << nTime << " blocks, rows(";
  for (size_t i = 0; i < baselines.size() && i < 6; ++i)
    s << (i ? " " : "") << baselines[i].first << "-" << baselines[i].second;
  s << (baselines.size() > 6 ? " ..)" : ")");
  return s.str();
}

Config genConfig(pbt::Ctx &c) {
  Config k;
  k.dataBits = c.pick({8u, 4u, 2u, 3u, 6u, 10u, 12u, 16u});
  k.weightBits = c.pick({12u, 8u, 2u, 3u, 4u, 6u, 10u, 16u});
  k.dist = c.pick({ref::TruncGaussian, ref::Uniform, ref::Gaussian, ref::StudentT});
  k.norm = c.pick({ref::AF, ref::RF, ref::Row});
  k.trunc = c.pick({2.5, 1.0, 1.5, 2.0, 3.0, 4.0, 1.7});
  k.nu = c.pick({1.0, 2.0, 3.0, 5.0, 10.0, 2.3});
  return k;
}

// the first baselines, of which at least one is a cross-correlation
static void keepBaselines(Layout &l, size_t n) {
  for (size_t i = n; i < l.baselines.size(); ++i)
    if (l.baselines[i].first != l.baselines[i].second) {
      std::swap(l.baselines[0], l.baselines[i]);
      break;
    }
  if (l.baselines.size() > n) l.baselines.resize(n);
}

Layout genLayout(pbt::Ctx &c, const LayoutOpts &o) {
  Layout l;
  l.nPol = size_t(c.pick({1, 4, 2, 3}));
  l.nChan = size_t(c.sized(1, 8, 40));
  const bool big = o.big && c.chance(1, 12);
  l.nAnt = size_t(big ? c.range(12, 40) : c.sized(2, 6, 14));
  l.nTime = size_t(c.sized(o.minTime, std::min(o.maxTime, o.minTime + 4), o.maxTime));
  const bool autos = o.autos && c.chance(1, 3);
  const int order = int(c.below(4));  // 0: standard, 1: reversed, 2: shuffled, 3: swapped a1/a2
  const bool subset = c.chance(1, 4);
  pbt::Expand e(c.raw());
  std::vector<std::pair<int, int>> b;
  for (int i = 0; i < int(l.nAnt); ++i)
    for (int j = autos ? i : i + 1; j < int(l.nAnt); ++j) b.emplace_back(i, j);
  if (subset) {
    std::vector<std::pair<int, int>> s;
    for (auto &x : b)
      if (e.below(3) != 0) s.push_back(x);
    bool cross = false;
    for (auto &x : s) cross |= x.first != x.second;
    if (cross) b = s;
  }
  if (order == 1) std::reverse(b.begin(), b.end());
  if (order == 2)
    for (size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[e.below(uint32_t(i))]);
  if (order == 3)
    for (auto &x : b) std::swap(x.first, x.second);
  if (c.chance(1, 10)) {  // antenna numbering with gaps
    for (auto &x : b) {
      x.first = x.first * 3 + 1;
      x.second = x.second * 3 + 1;
    }
  }
  l.baselines = b;
  while (l.nChan > 1 && l.nChan * l.nPol * b.size() * l.nTime > size_t(o.maxRows) * 4) l.nChan = (l.nChan + 1) / 2;
  // block boundaries: change of TIME and/or FIELD_ID and/or DATA_DESC_ID
  const int boundary = int(c.below(4));
  if (o.wide && c.chance(1, uint32_t(o.wide))) {
    // numbers that do not fit in 8 or 16 bits
    switch (c.below(5)) {
      case 0:  // channels
        l.nChan = size_t(c.range(257, 1200));
        keepBaselines(l, 6);
        l.nTime = std::min<size_t>(l.nTime, 4);
        break;
      case 1:
        l.nChan = size_t(c.range(65537, 66000));
        l.nPol = 1;
        keepBaselines(l, 2);
        l.nTime = std::max<size_t>(size_t(o.minTime), std::min<size_t>(l.nTime, 2));
        break;
      case 2:  // antennas
      case 3: {
        // (AF normalization uses an amount of memory that is quadratic in this)
        const int first = c.chance(1, 3) ? c.range(400, 1100) : c.range(200, 400);
        for (auto &x : l.baselines) {
          x.first += first;
          x.second += first;
        }
        l.nTime = std::max<size_t>(size_t(o.minTime), std::min<size_t>(l.nTime, 4));
        break;
      }
      default:  // blocks and rows
        keepBaselines(l, 3);
        l.nChan = std::min<size_t>(l.nChan, 2);
        l.nPol = 1;
        l.nTime = size_t(c.chance(1, 4) ? size_t(o.wideRows) / l.baselines.size() + 2 : size_t(c.range(257, 600)));
    }
  }
  // any change of TIME starts a block
  double t = c.chance(1, 6) ? c.pick({0.0, 1.0, -1.0, -7.0, 1e-3}) : 4.8e9;
  const double step = c.chance(1, 4) ? (t == 4.8e9 ? c.pick({1e-5, 1e-3, 0.25, -10.0, 86400.0})
                                                   : c.pick({1e-12, 1e-5, 5e-4, -1e-3, 1e-3, 1e7}))
                                     : 10.0;
  int f = 0, d = 0;
  for (size_t i = 0; i < l.nTime; ++i) {
    l.times.push_back(t);
    l.fields.push_back(f);
    l.ddids.push_back(d);
    switch (boundary) {
      case 0: t += step; break;
      case 1: f = (f + 1) % 2; break;
      case 2: d = (d + 1) % 3; break;
      default:
        if (e.below(3) == 0) t += 1.0;
        else if (e.below(2) == 0) ++f;
        else ++d;
    }
  }
  return l;
}

Vis genVis(pbt::Ctx &c, const Layout &l, const VisOpts &o) {
  Vis v(l.nRows(), std::vector<cf>(l.visPerRow()));
  const int kind = int(c.weighted({4, 2, 1, 2, 1, 1}));
  const double mag = c.pick({1.0, 1e-3, 1e3, 1e-10, 1e10, 1e-20, 1e15});
  const double spread = c.pick({1.0, 10.0, o.gainRange});
  const double seedBits = c.raw();
  pbt::Expand e(uint64_t(seedBits) * 7919 + 13);
  std::vector<double> gAnt((l.maxAnt() + 1) * l.nPol), gCh(l.visPerRow());
  for (double &g : gAnt) g = std::pow(spread, e.unit());
  for (double &g : gCh) g = std::pow(spread, e.unit());
  const bool autoBoost = c.chance(1, 4);
  for (size_t r = 0; r < v.size(); ++r) {
    auto ab = l.ant(r);
    for (size_t i = 0; i < l.visPerRow(); ++i) {
      const size_t p = i % l.nPol;
      const double g = mag * gAnt[size_t(ab.first) * l.nPol + p] * gAnt[size_t(ab.second) * l.nPol + p] * gCh[i];
      double re, im;
      switch (kind) {
        case 0:  // Gaussian noise
          re = e.normal();
          im = e.normal();
          break;
        case 1:  // strong source plus noise
          re = 1.0 + 0.1 * e.normal();
          im = 0.1 * e.normal();
          break;
        case 2:  // constant
          re = 1.0;
          im = -0.5;
          break;
        case 3:  // sparse
          re = e.below(3) == 0 ? e.normal() : 0.0;
          im = e.below(3) == 0 ? e.normal() : 0.0;
          break;
        case 4:  // small integers
          re = double(int(e.below(7)) - 3);
          im = double(int(e.below(7)) - 3);
          break;
        default:  // heavy tailed
          re = e.sym() / (0.02 + std::fabs(e.sym()));
          im = e.sym() / (0.02 + std::fabs(e.sym()));
      }
      const double a = (autoBoost && ab.first == ab.second) ? 50.0 : 1.0;
      v[r][i] = cf(float(re * g * a), float(im * g * a));
    }
  }
  // structured zeros
  if (o.allowZeroRows && c.chance(1, 6))
    for (size_t r = 0; r < v.size(); ++r)
      if (e.below(4) == 0) std::fill(v[r].begin(), v[r].end(), cf(0, 0));
  if (o.allowZeroRows && c.chance(1, 10)) {
    const size_t ch = e.below(uint32_t(l.visPerRow()));
    for (auto &row : v) row[ch] = cf(0, 0);
  }
  if (o.nonFinite) {
    const int mode = int(c.below(6));
    const float nan = std::numeric_limits<float>::quiet_NaN();
    const float inf = std::numeric_limits<float>::infinity();
    auto bad = [&](cf &x) {
      switch (e.below(6)) {
        case 0: x = cf(inf, inf); break;
        case 1: x = cf(-inf, inf); break;
        case 2: x = cf(inf, nan); break;
        default: x = cf(nan, nan);
      }
    };
    if (mode == 1 || mode == 5)
      for (auto &row : v)
        for (cf &x : row)
          if (e.below(10) == 0) bad(x);
    if (mode == 2)  // whole rows
      for (auto &row : v)
        if (e.below(4) == 0)
          for (cf &x : row) bad(x);
    if (mode == 3) {  // a channel/pol everywhere
      const size_t ch = e.below(uint32_t(l.visPerRow()));
      for (auto &row : v) bad(row[ch]);
    }
    if (mode == 4) {  // one antenna
      const int a = int(e.below(uint32_t(l.maxAnt() + 1)));
      for (size_t r = 0; r < v.size(); ++r)
        if (l.ant(r).first == a || l.ant(r).second == a)
          for (cf &x : v[r]) bad(x);
    }
  }
  return v;
}

Weights genWeights(pbt::Ctx &c, const Layout &l) {
  Weights w(l.nRows(), std::vector<float>(l.visPerRow()));
  const int kind = int(c.below(5));
  const double mag = c.pick({1.0, 1e-3, 100.0, 1e6, 1e-12});
  pbt::Expand e(c.raw());
  const bool samePol = c.chance(1, 2);
  for (auto &row : w)
    for (size_t ch = 0; ch < l.nChan; ++ch)
      for (size_t p = 0; p < l.nPol; ++p) {
        double x;
        switch (kind) {
          case 0: x = e.unit(); break;
          case 1: x = 1.0; break;
          case 2: x = e.below(3) ? e.unit() : 0.0; break;
          case 3: x = 0.0; break;
          default: x = std::pow(10.0, 4 * e.unit() - 4);
        }
        float f = float(x * mag);
        if (samePol && p > 0) f = row[ch * l.nPol];
        row[ch * l.nPol + p] = f;
      }
  return w;
}

std::unique_ptr<dyscostman::DyscoStMan> makeStMan(const Config &k) {
  auto m = std::make_unique<dyscostman::DyscoStMan>(k.dataBits, k.weightBits, k.name);
  switch (k.dist) {
    case ref::Gaussian: m->SetGaussianDistribution(); break;
    case ref::Uniform: m->SetUniformDistribution(); break;
    case ref::StudentT: m->SetStudentsTDistribution(k.nu); break;
    case ref::TruncGaussian: m->SetTruncatedGaussianDistribution(k.trunc); break;
  }
  switch (k.norm) {
    case ref::AF: m->SetNormalization(dyscostman::Normalization::kAF); break;
    case ref::RF: m->SetNormalization(dyscostman::Normalization::kRF); break;
    case ref::Row: m->SetNormalization(dyscostman::Normalization::kRow); break;
  }
  m->SetStaticSeed(k.staticSeed);
  return m;
}

void fillMeta(Table &t, const Layout &l, size_t first, size_t n) {
  ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID"), d(t, "DATA_DESC_ID");
  ScalarColumn<double> time(t, "TIME");
  for (size_t r = first; r < first + n; ++r) {
    const size_t b = r / l.baselines.size();
    a1.put(r, l.ant(r).first);
    a2.put(r, l.ant(r).second);
    f.put(r, l.fields[b]);
    d.put(r, l.ddids[b]);
    time.put(r, l.times[b]);
  }
}

Table createTable(const std::string &path, const Layout &l, const Config &k,
                  const std::vector<ColumnSpec> &cols, size_t nRows, bool dyscoFirst) {
  TableDesc td("", TableDesc::Scratch);
  td.addColumn(ScalarColumnDesc<int>("ANTENNA1"));
  td.addColumn(ScalarColumnDesc<int>("ANTENNA2"));
  td.addColumn(ScalarColumnDesc<int>("FIELD_ID"));
  td.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID"));
  td.addColumn(ScalarColumnDesc<double>("TIME"));
  const IPosition shape(2, ssize_t(l.nPol), ssize_t(l.nChan));
  for (const ColumnSpec &c : cols) {
    if (c.weight) {
      ArrayColumnDesc<float> d(c.name, "", "DyscoStMan", k.name, shape);
      d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
      td.addColumn(d);
    } else {
      ArrayColumnDesc<Complex> d(c.name, "", "DyscoStMan", k.name, shape);
      d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
      td.addColumn(d);
    }
  }
  SetupNewTable setup(path, td, Table::New);
  auto m = makeStMan(k);
  if (dyscoFirst)
    for (const ColumnSpec &c : cols) setup.bindColumn(c.name, *m);
  StandardStMan ssm("SSM", 2048);
  for (const char *n : {"ANTENNA1", "ANTENNA2", "FIELD_ID", "DATA_DESC_ID", "TIME"})
    setup.bindColumn(n, ssm);
  if (!dyscoFirst)
    for (const ColumnSpec &c : cols) setup.bindColumn(c.name, *m);
  Table t(setup, nRows);
  fillMeta(t, l, 0, nRows);
  return t;
}

void putVis(Table &t, const std::string &col, size_t row, const Layout &l, const std::vector<cf> &v) {
  ArrayColumn<Complex> c(t, col);
  Array<Complex> a(IPosition(2, ssize_t(l.nPol), ssize_t(l.nChan)));
  std::copy(v.begin(), v.end(), a.data());
  c.put(row, a);
}
std::vector<cf> getVis(Table &t, const std::string &col, size_t row, const Layout &l) {
  ArrayColumn<Complex> c(t, col);
  // (prefilled, so that a read that returns nothing is seen)
  Array<Complex> a(IPosition(2, ssize_t(l.nPol), ssize_t(l.nChan)), Complex(-3.5e33f, 7.5e33f));
  c.get(row, a);
  return std::vector<cf>(a.data(), a.data() + l.visPerRow());
}
void putWeight(Table &t, const std::string &col, size_t row, const Layout &l, const std::vector<float> &v) {
  ArrayColumn<float> c(t, col);
  Array<float> a(IPosition(2, ssize_t(l.nPol), ssize_t(l.nChan)));
  std::copy(v.begin(), v.end(), a.data());
  c.put(row, a);
}
std::vector<float> getWeight(Table &t, const std::string &col, size_t row, const Layout &l) {
  ArrayColumn<float> c(t, col);
  Array<float> a(IPosition(2, ssize_t(l.nPol), ssize_t(l.nChan)), -3.5e33f);
  c.get(row, a);
  return std::vector<float>(a.data(), a.data() + l.visPerRow());
}

std::vector<std::string> dyscoFiles(const std::string &path) {
  // The storage manager's data file is table.f<seqnr>; the others are those of
  // casacore's own managers. Dysco files start with a v1.0 header that parses.
  std::vector<std::string> r;
  for (auto &e : fs::directory_iterator(path)) {
    const std::string n = e.path().filename().string();
    if (n.rfind("table.f", 0) != 0 || n.size() < 8 || !isdigit(n[7])) continue;
    if (n.find("_") != std::string::npos || n.back() == 'i') continue;
    try {
      ref::File f = ref::parse(ref::slurp(e.path().string()));
      if (f.major == 1) r.push_back(e.path().string());
    } catch (std::exception &) {
    }
  }
  std::sort(r.begin(), r.end());
  return r;
}
std::string dyscoFile(const std::string &path, const std::string *name) {
  auto f = dyscoFiles(path);
  if (name)  // a manager that was refused may leave an empty file
    for (auto &x : f)
      if (ref::parse(ref::slurp(x)).name == *name) return x;
  if (f.empty()) throw pbt::Failure("no-dysco-file", "no valid v1.0 Dysco file found in " + path);
  return f.back();
}

size_t columnSize(const ref::File &f, const Layout &l, const ColumnSpec &col) {
  return col.weight ? ref::weightBlockSize(f.weightBits, f.rowsPerBlock, l.nChan)
                    : ref::dataBlockSize(ref::Norm(f.norm), f.dataBits, f.rowsPerBlock, l.nPol,
                                         l.nChan, f.antennaCount);
}

BlockValues decodeBlock(const ref::File &f, const Layout &l, const std::vector<ColumnSpec> &cols,
                        size_t column, size_t block) {
  size_t off = f.headerSize + block * size_t(f.blockSize);
  for (size_t i = 0; i < column; ++i) off += columnSize(f, l, cols[i]);
  const size_t size = columnSize(f, l, cols[column]), rows = f.rowsPerBlock;
  // bytes that were never written are zero
  std::vector<uint8_t> b(size, 0);
  for (size_t i = 0; i < size && off + i < f.bytes.size(); ++i) b[i] = f.bytes[off + i];
  BlockValues v;
  v.re.assign(rows, std::vector<double>(l.visPerRow()));
  v.im = v.factor = v.re;
  if (cols[column].weight) {
    const ref::DataBlock d = ref::readBlock(b.data(), 1, rows * l.nChan, f.weightBits);
    const double q = double((size_t(1) << f.weightBits) - 1);
    for (size_t r = 0; r < rows; ++r)
      for (size_t i = 0; i < l.visPerRow(); ++i) {
        v.re[r][i] = double(d.symbols[r * l.nChan + i / l.nPol]) * (double(d.meta[0]) / q);
        v.factor[r][i] = double(d.meta[0]) / q;
      }
  } else {
    const ref::Norm n = ref::Norm(f.norm);
    const ref::DataBlock d =
        ref::readBlock(b.data(), ref::dataMetaCount(n, rows, l.nPol, l.nChan, f.antennaCount),
                       rows * l.visPerRow() * 2, f.dataBits);
    static std::map<std::tuple<int, int, double, double>, std::vector<double>> cache;
    if (cache.size() > 40) cache.clear();
    auto &lv = cache[std::make_tuple(int(f.dist), int(f.dataBits), f.trunc, f.nu)];
    if (lv.empty()) lv = ref::levels(ref::Dist(f.dist), f.dataBits, f.trunc, f.nu);
    for (size_t r = 0; r < rows; ++r)
      for (size_t i = 0; i < l.visPerRow(); ++i) {
        const auto ab = l.ant(block * rows + r);
        // (such a row can not have been stored)
        if (n == ref::AF && size_t(std::max(ab.first, ab.second)) >= f.antennaCount) continue;
        const double x = ref::factor(n, d.meta, rows, l.nPol, l.nChan, f.antennaCount, r, i / l.nPol,
                                     i % l.nPol, size_t(ab.first), size_t(ab.second));
        v.factor[r][i] = x;
        v.re[r][i] = ref::levelValue(lv, d.symbols[(r * l.visPerRow() + i) * 2]) * x;
        v.im[r][i] = ref::levelValue(lv, d.symbols[(r * l.visPerRow() + i) * 2 + 1]) * x;
      }
  }
  return v;
}

bool sameValue(double e, double g, double factor) {
  if (!std::isfinite(e)) return !std::isfinite(g);
  if (std::fabs(e) > 3.4e38) return std::fabs(g) > 3.3e38;  // beyond single precision
  return std::fabs(e - g) <= 3e-6 * std::fabs(e) + 1e-7 * std::fabs(factor) + 1e-37;
}

std::string checkStep(const std::vector<double> &lv, double factor, double x, double y) {
  std::ostringstream s;
  s.precision(9);
  const double fx = std::fabs(factor);
  if (fx == 0.0) {
    if (y == 0.0) return "";
    s << "scale factor 0 but decoded " << y;
    return s.str();
  }
  const double u = x / factor, w = y / factor;
  const double top = lv.back();
  const double tol = 3e-5 * std::max(std::fabs(u), 1e-3 * top);
  // the decoded value is a float: its rounding error is relative to the value itself, not to u
  const double wtol = std::max(tol, 2e-6 * std::fabs(w));
  auto it = std::lower_bound(lv.begin(), lv.end(), u);
  double lo = it == lv.begin() ? lv.front() : *(it - 1);
  double hi = it == lv.end() ? lv.back() : *it;
  // u within rounding distance of a level: neighbours of that level count too
  if (it != lv.end() && std::fabs(*it - u) <= tol && it + 1 != lv.end()) hi = *(it + 1);
  if (it != lv.begin() && std::fabs(*(it - 1) - u) <= tol && it - 1 != lv.begin()) lo = *(it - 2);
  if (u < lv.front() - tol || u > lv.back() + tol)
    s << "value " << x << " (" << u << " in units of the scale factor) is outside the representable range ["
      << lv.front() << "," << lv.back() << "], decoded " << y;
  else if (w < lo - wtol || w > hi + wtol)
    s << "value " << x << " decoded as " << y << "; in units of the scale factor " << u << " -> " << w
      << ", neighbouring levels " << lo << " and " << hi;
  return s.str();
}

}  // namespace kit
