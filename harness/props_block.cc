// Properties of the block encoders (the part between a time block of
// visibilities or weights and its scale factors and symbols): block-level
// facets of C01, C02, C03, C06, C07, C08, C09.
#include "kit.h"
#include "pbt.h"
#include "ref.h"

#include "aftimeblockencoder.h"
#include "rftimeblockencoder.h"
#include "rowtimeblockencoder.h"
#include "weightblockencoder.h"

#include <memory>
#include <random>

using namespace pbt;
using kit::cf;
using kit::Config;
using kit::Layout;
using kit::Vis;
using Enc = dyscostman::StochasticEncoder<float>;
using FBuffer = TimeBlockBuffer<std::complex<float>>;

namespace {

struct Key {
  int dist;
  unsigned bits;
  double par;
  bool operator<(const Key &o) const {
    return std::tie(dist, bits, par) < std::tie(o.dist, o.bits, o.par);
  }
};
struct Quant {
  Enc enc;
  std::vector<double> lv, bounds;
};
const Quant &quant(const Config &k) {
  static std::map<Key, std::unique_ptr<Quant>> cache;
  const Key key{int(k.dist), k.dataBits,
                k.dist == ref::TruncGaussian ? k.trunc : k.dist == ref::StudentT ? k.nu : 0.0};
  auto it = cache.find(key);
  if (it == cache.end()) {
    if (cache.size() > 150) cache.clear();
    const size_t q = size_t(1) << k.dataBits;
    Enc e = k.dist == ref::Gaussian   ? Enc(q, 1.0f)
            : k.dist == ref::Uniform  ? Enc(q, 1.0f, false)
            : k.dist == ref::StudentT ? Enc::StudentTEncoder(q, k.nu, 1.0)
                                      : Enc::TruncatedGausEncoder(q, k.trunc, 1.0);
    std::unique_ptr<Quant> n(new Quant{e, k.levels(), {}});
    for (size_t i = 0; i + 1 < n->lv.size(); ++i)
      n->bounds.push_back(ref::boundary(k.dist, k.dataBits, i, k.trunc, k.nu));
    it = cache.emplace(key, std::move(n)).first;
  }
  return *it->second;
}

std::unique_ptr<TimeBlockEncoder> makeEncoder(const Config &k, const Layout &l) {
  switch (k.norm) {
    case ref::AF: return std::make_unique<AFTimeBlockEncoder>(l.nPol, l.nChan, true);
    case ref::RF: return std::make_unique<RFTimeBlockEncoder>(l.nPol, l.nChan);
    default: return std::make_unique<RowTimeBlockEncoder>(l.nPol, l.nChan);
  }
}

FBuffer fill(const Layout &l, const Vis &v) {
  FBuffer b(l.nPol, l.nChan);
  for (size_t r = 0; r < v.size(); ++r)
    b.SetData(r, size_t(l.ant(r).first), size_t(l.ant(r).second), v[r].data());
  return b;
}

struct Encoded {
  std::vector<float> meta;
  std::vector<uint32_t> sym;
};
// rnd == nullptr: without dithering. Buffers have exactly the required sizes.
Encoded encodeWith(TimeBlockEncoder &e, const Config &k, const Layout &l, const Vis &v,
                   std::mt19937 *rnd) {
  const size_t nAnt = l.maxAnt() + 1, rows = v.size();
  const size_t nMeta = e.MetaDataCount(rows, l.nPol, l.nChan, nAnt);
  const size_t nSym = e.SymbolCount(rows, l.nPol, l.nChan);
  CHECK(nMeta == ref::dataMetaCount(k.norm, rows, l.nPol, l.nChan, nAnt), "meta-count",
        "MetaDataCount() = " << nMeta);
  CHECK(nSym == rows * l.nPol * l.nChan * 2 && e.SymbolCount(rows) == nSym &&
            e.SymbolsPerRow() * rows == nSym,
        "symbol-count", "SymbolCount() = " << nSym);
  std::unique_ptr<float[]> meta(new float[nMeta]);
  std::unique_ptr<unsigned[]> sym(new unsigned[nSym]);
  for (size_t i = 0; i < nMeta; ++i) meta[i] = -12345.0f;
  for (size_t i = 0; i < nSym; ++i) sym[i] = 0xFFFFFFFF;
  FBuffer b = fill(l, v);
  if (rnd)
    e.EncodeWithDithering(quant(k).enc, b, meta.get(), sym.get(), nAnt, *rnd);
  else
    e.EncodeWithoutDithering(quant(k).enc, b, meta.get(), sym.get(), nAnt);
  Encoded r;
  r.meta.assign(meta.get(), meta.get() + nMeta);
  r.sym.assign(sym.get(), sym.get() + nSym);
  for (size_t i = 0; i < nSym; ++i)
    CHECK(r.sym[i] < (1u << k.dataBits), "symbol-range",
          k.text() << ": symbol " << i << " = " << r.sym[i]);
  return r;
}
Encoded encode(const Config &k, const Layout &l, const Vis &v, std::mt19937 *rnd) {
  auto e = makeEncoder(k, l);
  return encodeWith(*e, k, l, v, rnd);
}
Vis decodeWith(TimeBlockEncoder &d, const Config &k, const Layout &l, const Encoded &e,
               const std::vector<size_t> &order) {
  const size_t rows = l.rowsPerBlock();
  std::unique_ptr<float[]> meta(new float[e.meta.size()]);
  std::copy(e.meta.begin(), e.meta.end(), meta.get());
  d.InitializeDecode(meta.get(), rows, l.maxAnt() + 1);
  meta.reset();  // the decoder may not refer to it afterwards
  std::unique_ptr<unsigned[]> sym(new unsigned[e.sym.size()]);
  std::copy(e.sym.begin(), e.sym.end(), sym.get());
  FBuffer out(l.nPol, l.nChan);
  out.resize(rows);
  Vis v(rows);
  for (size_t r : order) {
    d.Decode(quant(k).enc, out, sym.get(), r, size_t(l.ant(r).first), size_t(l.ant(r).second));
    std::vector<cf> got(l.visPerRow(), cf(-7, -7));
    out.GetData(r, got.data());
    if (!v[r].empty())
      CHECK(memcmp(v[r].data(), got.data(), got.size() * sizeof(cf)) == 0, "decode-order",
            "row " << r << " decodes differently the second time");
    v[r] = got;
  }
  return v;
}
std::vector<size_t> allRows(const Layout &l) {
  std::vector<size_t> o(l.rowsPerBlock());
  for (size_t i = 0; i < o.size(); ++i) o[i] = i;
  return o;
}
Vis decode(const Config &k, const Layout &l, const Encoded &e) {
  auto d = makeEncoder(k, l);
  return decodeWith(*d, k, l, e, allRows(l));
}

Layout genBlock(Ctx &c, int maxRows = 3000) {
  kit::LayoutOpts o;
  o.minTime = o.maxTime = 1;
  o.maxRows = maxRows;
  Layout l = kit::genLayout(c, o);
  return l;
}
bool finite(const cf &x) { return std::isfinite(x.real()) && std::isfinite(x.imag()); }
double comp(const cf &x, int c) { return c ? x.imag() : x.real(); }
double maxAbs(const cf &x) { return std::max(std::fabs(double(x.real())), std::fabs(double(x.imag()))); }

double factorOf(const Config &k, const Layout &l, const Encoded &e, size_t row, size_t i) {
  return ref::factor(k.norm, e.meta, l.rowsPerBlock(), l.nPol, l.nChan, l.maxAnt() + 1, row,
                     i / l.nPol, i % l.nPol, size_t(l.ant(row).first), size_t(l.ant(row).second));
}
std::string where(const Layout &l, size_t row, size_t i, int part) {
  std::ostringstream s;
  s << "row " << row << " (" << l.ant(row).first << "-" << l.ant(row).second << ") channel "
    << i / l.nPol << " pol " << i % l.nPol << (part ? " imag" : " real");
  return s.str();
}

// Every finite component must be decoded as a neighbouring level. Requires data
// in which bad visibilities have two bad components.
void checkAccuracy(Ctx &c, const Config &k, const Layout &l, const Vis &v, const Encoded &e,
                   const Vis &y, bool dithered) {
  const Quant &q = quant(k);
  const std::vector<double> &lv = q.lv;
  for (size_t r = 0; r < v.size(); ++r) {
    double rowMax = 0;
    for (const cf &x : v[r])
      if (finite(x)) rowMax = std::max(rowMax, maxAbs(x));
    for (size_t i = 0; i < l.visPerRow(); ++i) {
      if (!finite(v[r][i])) continue;
      const double f = factorOf(k, l, e, r, i);
      const bool isAuto = l.ant(r).first == l.ant(r).second;
      if (k.norm != ref::AF)
        CHECK(std::fabs(f) <= rowMax / lv.back() * 1.00001, "factor",
              k.text() << " " << where(l, r, i, 0) << ": scale factor " << f
                       << " is larger than required for a row with maximum " << rowMax);
      for (int p = 0; p < 2; ++p) {
        const double x = comp(v[r][i], p), w = comp(y[r][i], p);
        c.subEvaluations++;
        CHECK(std::isfinite(w), "became-nonfinite",
              k.text() << " " << where(l, r, i, p) << ": " << x << " decoded as " << w);
        if (k.norm == ref::AF && isAuto && f != 0.0 && std::fabs(x / f) >= lv.back()) {
          // auto-correlations may be clipped
          const double edge = (x / f > 0 ? 1 : -1) * lv.back() * f;
          CHECK(std::fabs(w - edge) <= 1e-4 * std::fabs(edge), "auto-clip",
                k.text() << " " << where(l, r, i, p) << ": " << x << " decoded as " << w
                         << ", outer level is " << edge);
          c.count("clipped autocorrelations", 1);
          continue;
        }
        const std::string s = kit::checkStep(lv, f, x, w);
        CHECK(s.empty(), "step", k.text() << " " << where(l, r, i, p) << ": " << s);
        if (!dithered && f != 0.0) {
          // the value must be in the interval of the chosen symbol
          const uint32_t sym = e.sym[(r * l.visPerRow() + i) * 2 + size_t(p)];
          const double u = x / f, tol = 3e-5 * std::max(std::fabs(u), 1e-3 * lv.back());
          const double lo = sym == 0 ? -INFINITY : q.bounds[sym - 1];
          const double hi = sym + 1 == lv.size() ? INFINITY : q.bounds[sym];
          CHECK(u >= lo - tol && u <= hi + tol, "nearest",
                k.text() << " " << where(l, r, i, p) << ": " << u << " (in units of the scale "
                         << "factor) was given symbol " << sym << " with interval [" << lo << ","
                         << hi << "]");
        }
      }
    }
  }
}

std::string caseText(const Config &k, const Layout &l, bool dither) {
  return k.text() + ", " + l.text() + (dither ? ", dithered" : ", not dithered");
}

// ======================================================== C01 block accuracy
void blockAccuracy(Ctx &c) {
  const Config k = kit::genConfig(c);
  const Layout l = genBlock(c);
  kit::VisOpts vo;
  const Vis v = kit::genVis(c, l, vo);
  const bool dither = c.chance(1, 2);
  std::mt19937 rnd(c.raw());
  c.note(caseText(k, l, dither));
  const Encoded e = encode(k, l, v, dither ? &rnd : nullptr);
  const Vis y = decode(k, l, e);
  checkAccuracy(c, k, l, v, e, y, dither);
  size_t nonzero = 0, values = 0;
  std::set<std::pair<float, float>> distinct;
  for (auto &row : v)
    for (const cf &x : row) {
      ++values;
      if (finite(x) && maxAbs(x) > 0) ++nonzero;
      if (distinct.size() < 4 && finite(x)) distinct.insert({x.real(), x.imag()});
    }
  c.label(k.norm == ref::AF ? "AF" : k.norm == ref::RF ? "RF" : "Row");
  if (nonzero >= 2 && distinct.size() >= 2) c.nontrivial();
}
FACET("C01", "block", blockAccuracy, 120, 18000, 200000,
      "random encoder settings, block shape, baselines and visibilities (noise, source, constant, "
      "sparse, integer, heavy-tailed; zeros; non-finite samples; magnitudes 1e-20..1e15); every "
      "finite component compared with the adjacent levels times the stored scale factor, "
      "non-dithered symbols with their interval; non-trivial: two distinct and two non-zero values");

// ======================================================= C02 non-finite data
void blockNonFinite(Ctx &c) {
  const Config k = kit::genConfig(c);
  const Layout l = genBlock(c);
  kit::VisOpts vo;
  vo.nonFinite = false;
  Vis v = kit::genVis(c, l, vo);
  const bool dither = c.chance(1, 2), partial = c.chance(1, 2);
  const int mode = int(c.below(6));
  Expand e(c.raw());
  const float inf = std::numeric_limits<float>::infinity(), nan = NAN;
  auto badValue = [&]() {
    switch (e.below(5)) {
      case 0: return inf;
      case 1: return -inf;
      case 2: return -nan;
      default: return nan;
    }
  };
  size_t nBad = 0;
  auto bad = [&](cf &x) {
    const uint32_t w = partial ? e.below(3) : 2;
    if (w != 0) x.real(badValue());
    if (w != 1) x.imag(badValue());
    ++nBad;
  };
  const uint32_t density = 1 + e.below(12);
  const size_t badVis = e.below(uint32_t(l.visPerRow()));
  const int badAnt = int(e.below(uint32_t(l.maxAnt() + 1)));
  for (size_t r = 0; r < v.size(); ++r) {
    const bool wholeRow = mode == 1 && e.below(3) == 0;
    for (size_t i = 0; i < l.visPerRow(); ++i) {
      const bool ant = l.ant(r).first == badAnt || l.ant(r).second == badAnt;
      if (wholeRow || (mode == 0 && e.below(density) == 0) || (mode == 2 && i == badVis) ||
          (mode == 3 && ant) || (mode == 4 && i % l.nPol == badVis % l.nPol) ||
          (mode == 5 && e.below(20) != 0))
        bad(v[r][i]);
    }
  }
  c.note(caseText(k, l, dither)).note(", mode ").note(mode).note(partial ? " partial " : " full ").note(nBad);
  const uint32_t seed = c.raw();
  std::mt19937 rnd(seed);
  const Encoded en = encode(k, l, v, dither ? &rnd : nullptr);
  const Vis y = decode(k, l, en);
  // groups that have at least one fully finite visibility
  std::vector<char> chOk(l.visPerRow(), 0), rowPolOk(v.size() * l.nPol, 0), rowOk(v.size(), 0);
  for (size_t r = 0; r < v.size(); ++r)
    for (size_t i = 0; i < l.visPerRow(); ++i)
      if (finite(v[r][i])) chOk[i] = 1, rowPolOk[r * l.nPol + i % l.nPol] = 1, rowOk[r] = 1;
  for (size_t r = 0; r < v.size(); ++r)
    for (size_t i = 0; i < l.visPerRow(); ++i)
      for (int p = 0; p < 2; ++p) {
        const double x = comp(v[r][i], p), w = comp(y[r][i], p);
        c.subEvaluations++;
        if (!std::isfinite(x)) {
          CHECK(!std::isfinite(w), "became-finite",
                k.text() << " " << where(l, r, i, p) << ": " << x << " decoded as " << w);
        } else {
          const bool ok = k.norm == ref::AF   ? chOk[i]
                          : k.norm == ref::RF ? (chOk[i] && rowPolOk[r * l.nPol + i % l.nPol])
                                              : rowOk[r];
          if (ok)
            CHECK(std::isfinite(w), "became-nonfinite",
                  k.text() << " " << where(l, r, i, p) << ": " << x << " decoded as " << w);
        }
      }
  if (!partial) {
    checkAccuracy(c, k, l, v, en, y, dither);
    // which non-finite value it is may not matter
    Vis v2 = v;
    for (auto &row : v2)
      for (cf &x : row)
        if (!finite(x)) x = cf(badValue(), badValue());
    std::mt19937 rnd2(seed);
    const Encoded en2 = encode(k, l, v2, dither ? &rnd2 : nullptr);
    CHECK(en2.sym == en.sym, "kind-matters",
          k.text() << ": other non-finite values give other symbols");
  }
  c.label(partial ? "one component bad" : "both components bad");
  if (nBad > 0 && nBad < v.size() * l.visPerRow()) c.nontrivial();
}
FACET("C02", "block", blockNonFinite, 120, 18000, 200000,
      "random blocks with NaN/+-Inf in one or both components of random samples, rows, channels, "
      "antennas or polarizations; finiteness of every component, accuracy of the finite ones and "
      "independence of the kind of bad value; non-trivial: some but not all samples are bad");

// ============================================================== C03 weights
void blockWeights(Ctx &c) {
  Config k = kit::genConfig(c);
  Layout l = genBlock(c);
  const kit::Weights w = kit::genWeights(c, l);
  c.note(k.weightBits).note(" bits ").note(l.text());
  const size_t rows = l.rowsPerBlock(), q = size_t(1) << k.weightBits;
  WeightBlockEncoder e(l.nPol, l.nChan, q);
  CHECK(e.MetaDataFloatCount() == 1 && e.SymbolCount(rows) == rows * l.nChan, "sizes",
        "weight block sizes");
  TimeBlockBuffer<float> b(l.nPol, l.nChan);
  for (size_t r = 0; r < rows; ++r) b.SetData(r, 0, 1, w[r].data());
  std::unique_ptr<float[]> meta(new float[1]);
  std::unique_ptr<unsigned[]> sym(new unsigned[rows * l.nChan]);
  e.Encode(b, meta.get(), sym.get());
  double mx = 0;
  bool nonzero = false;
  for (auto &row : w)
    for (size_t ch = 0; ch < l.nChan; ++ch) {
      float m = row[ch * l.nPol];
      for (size_t p = 1; p < l.nPol; ++p) m = std::min(m, row[ch * l.nPol + p]);
      mx = std::max(mx, double(m));
      nonzero |= m != 0;
    }
  WeightBlockEncoder d(l.nPol, l.nChan, q);
  d.InitializeDecode(meta.get());
  TimeBlockBuffer<float> out(l.nPol, l.nChan);
  out.resize(rows);
  const double step = mx / double(q - 1);
  bool sawMax = false;
  for (size_t r = rows; r-- > 0;) {
    d.Decode(out, sym.get(), r);
    std::vector<float> got(l.visPerRow(), -1.0f);
    out.GetData(r, got.data());
    for (size_t ch = 0; ch < l.nChan; ++ch) {
      float m = w[r][ch * l.nPol];
      for (size_t p = 1; p < l.nPol; ++p) m = std::min(m, w[r][ch * l.nPol + p]);
      const double y = got[ch * l.nPol];
      c.subEvaluations++;
      CHECK(sym[r * l.nChan + ch] < q, "symbol-range", "symbol " << sym[r * l.nChan + ch]);
      for (size_t p = 1; p < l.nPol; ++p)
        CHECK(got[ch * l.nPol + p] == y, "pols-differ",
              "row " << r << " channel " << ch << ": polarization " << p << " is "
                     << got[ch * l.nPol + p] << ", first is " << y);
      CHECK(std::fabs(y - m) <= step * 0.5 * (1 + 1e-5) + 1e-6 * m, "half-step",
            "row " << r << " channel " << ch << ": weight " << m << " decoded as " << y
                   << ", step is " << step);
      CHECK(y >= 0, "negative", "weight " << y);
      if (m == 0) CHECK(y == 0, "zero", "zero weight decoded as " << y);
      if (m == mx && mx > 0) {
        CHECK(std::fabs(y - mx) <= 1.5e-7 * mx, "maximum", "largest weight " << mx << " decoded as " << y);
        sawMax = true;
      }
      if (step > 0) {
        const double n = y / step;
        CHECK(std::fabs(n - std::round(n)) <= 1e-6 * double(q), "not-on-grid",
              "weight " << y << " is not a multiple of " << step);
      }
    }
  }
  CHECK(sawMax || mx == 0, "maximum", "largest weight not found");
  if (nonzero) c.nontrivial();
}
FACET("C03", "block", blockWeights, 80, 30000, 400000,
      "random weight bit rate, shape and weights (uniform, constant, with zeros, all zero, "
      "logarithmic; equal or different per polarization); non-trivial: a non-zero weight");

// =================================================== C06 dithering in blocks
void ditherMean(Ctx &c) {
  const Config k = kit::genConfig(c);
  kit::LayoutOpts o;
  o.minTime = o.maxTime = 1;
  o.maxRows = 60;
  o.big = false;
  Layout l = kit::genLayout(c, o);
  kit::VisOpts vo;
  vo.nonFinite = false;
  const Vis v = kit::genVis(c, l, vo);
  const Quant &q = quant(k);
  const int n = 120;
  c.note(caseText(k, l, true));
  std::mt19937 rnd(c.raw());
  auto enc = makeEncoder(k, l);
  const size_t nComp = v.size() * l.visPerRow() * 2;
  std::vector<unsigned> up(nComp, 0);
  std::vector<double> frac(nComp, -1);
  std::vector<uint32_t> lower(nComp, 0);
  double corr = 0, corrVar = 0, bias = 0, biasVar = 0, lag = 0, lagVar = 0;
  std::vector<double> prevRes;
  for (int t = 0; t < n; ++t) {
    const Encoded e = encodeWith(*enc, k, l, v, &rnd);
    if (t == 0)
      for (size_t j = 0; j < nComp; ++j) {
        const size_t r = j / 2 / l.visPerRow(), i = j / 2 % l.visPerRow();
        const double f = factorOf(k, l, e, r, i);
        if (f == 0) continue;
        const double u = comp(v[r][i], int(j % 2)) / f;
        auto it = std::upper_bound(q.lv.begin(), q.lv.end(), u);
        if (it == q.lv.begin() || it == q.lv.end()) continue;
        const double lo = *(it - 1), hi = *it;
        const double tol = 2e-4 * std::max(std::fabs(u), 1e-3);
        if ((hi - lo) < 50 * tol || u - lo < tol || hi - u < tol) continue;
        lower[j] = uint32_t(it - q.lv.begin() - 1);
        frac[j] = (u - lo) / (hi - lo);
      }
    std::vector<double> res(nComp, 0);
    double prevVar = 0, prevR = 0;
    for (size_t j = 0; j < nComp; ++j) {
      if (frac[j] < 0) {
        prevVar = 0;
        continue;
      }
      CHECK(e.sym[j] == lower[j] || e.sym[j] == lower[j] + 1, "adjacent",
            k.text() << ": symbol " << e.sym[j] << ", expected " << lower[j] << " or " << lower[j] + 1);
      const bool isUp = e.sym[j] == lower[j] + 1;
      up[j] += isUp;
      const double p = frac[j], r = double(isUp) - p, var = p * (1 - p);
      c.subEvaluations++;
      bias += r;
      biasVar += var;
      if (prevVar > 0) corr += r * prevR, corrVar += var * prevVar;
      if (t > 0) lag += r * prevRes[j], lagVar += var * var;
      res[j] = r;
      prevR = r;
      prevVar = var;
    }
    prevRes = res;
  }
  size_t used = 0;
  for (size_t j = 0; j < nComp; ++j) {
    if (frac[j] < 0) continue;
    ++used;
    const double p = frac[j], expect = n * p;
    CHECK(std::fabs(up[j] - expect) <= 7 * std::sqrt(expect * (1 - p)) + 10 + n * 2e-2, "mean",
          k.text() << ": component " << j << " at " << p << " between its levels was rounded up "
                   << up[j] << " times out of " << n);
  }
  // tolerance for the float rounding of scale factors: a relative position can
  // be off by at most 2e-2 (see the selection above), typically far less
  const double slack = 2e-3 * double(used) * n;
  CHECK(std::fabs(bias) <= 7 * std::sqrt(biasVar) + slack, "bias",
        k.text() << ": sum of residuals " << bias << ", expected standard deviation "
                 << std::sqrt(biasVar));
  CHECK(std::fabs(corr) <= 7 * std::sqrt(corrVar) + 20 + slack, "neighbour-correlation",
        k.text() << ": rounding of consecutive components is correlated (" << corr << ", sigma "
                 << std::sqrt(corrVar) << ")");
  CHECK(std::fabs(lag) <= 7 * std::sqrt(lagVar) + 20 + slack, "block-correlation",
        k.text() << ": rounding in consecutive blocks is correlated (" << lag << ", sigma "
                 << std::sqrt(lagVar) << ")");
  c.count("dithered components", used);
  if (used >= 2) c.nontrivial();
}
FACET("C06", "block_mean", ditherMean, 120, 1600, 12000,
      "a random block is encoded 120 times with dithering: each component uses only its two "
      "neighbouring levels, upper level chosen in proportion to its position, residuals unbiased "
      "and uncorrelated between components and blocks (7 sigma); non-trivial: at least two "
      "components between levels");

// ============================================================ C07 full range
void fullRange(Ctx &c) {
  const Config k = kit::genConfig(c);
  const Layout l = genBlock(c);
  const Vis v = kit::genVis(c, l);
  c.note(caseText(k, l, false));
  const Encoded e = encode(k, l, v, nullptr);
  const Quant &q = quant(k);
  const uint32_t top = uint32_t(q.lv.size() - 1);
  const double maxLevel = q.lv.back();
  auto outer = [&](size_t r, size_t i) {
    const uint32_t a = e.sym[(r * l.visPerRow() + i) * 2], b = e.sym[(r * l.visPerRow() + i) * 2 + 1];
    return a == 0 || a == top || b == 0 || b == top;
  };
  size_t groups = 0;
  auto need = [&](bool has, bool found, const std::string &what) {
    if (!has) return;
    ++groups;
    CHECK(found, "not-at-outer-level", k.text() << ": no value of " << what << " is at the outer level");
  };
  c.subEvaluations++;
  if (k.norm == ref::Row) {
    for (size_t r = 0; r < v.size(); ++r) {
      double mx = 0, atMax = false;
      for (size_t i = 0; i < l.visPerRow(); ++i)
        if (finite(v[r][i])) mx = std::max(mx, maxAbs(v[r][i]));
      for (size_t i = 0; i < l.visPerRow(); ++i)
        if (finite(v[r][i]) && maxAbs(v[r][i]) == mx) atMax = atMax || outer(r, i);
      need(mx > 0, atMax, "row " + std::to_string(r));
      if (mx > 0)
        CHECK(std::fabs(double(e.meta[r]) * maxLevel - mx) <= 1e-5 * mx, "row-factor",
              k.text() << ": row " << r << " has scale factor " << e.meta[r] << ", maximum " << mx);
    }
  } else if (k.norm == ref::RF) {
    for (size_t i = 0; i < l.visPerRow(); ++i) {
      bool has = false, found = false;
      for (size_t r = 0; r < v.size(); ++r)
        if (finite(v[r][i]) && maxAbs(v[r][i]) > 0) has = true, found = found || outer(r, i);
      need(has, found, "channel " + std::to_string(i / l.nPol) + " pol " + std::to_string(i % l.nPol));
    }
    for (size_t r = 0; r < v.size(); ++r)
      for (size_t p = 0; p < l.nPol; ++p) {
        double mx = 0;
        bool found = false;
        for (size_t ch = 0; ch < l.nChan; ++ch) {
          const size_t i = ch * l.nPol + p;
          if (finite(v[r][i])) mx = std::max(mx, maxAbs(v[r][i])), found = found || (maxAbs(v[r][i]) > 0 && outer(r, i));
        }
        need(mx > 0, found, "row " + std::to_string(r) + " pol " + std::to_string(p));
        if (mx > 0)
          CHECK(std::fabs(double(e.meta[l.visPerRow() + r * l.nPol + p]) * maxLevel - mx) <= 1e-5 * mx,
                "row-factor", k.text() << ": row " << r << " pol " << p << " has scale factor "
                                       << e.meta[l.visPerRow() + r * l.nPol + p] << ", maximum " << mx);
      }
  } else {
    const size_t nAnt = l.maxAnt() + 1;
    for (size_t p = 0; p < l.nPol; ++p) {
      std::vector<double> antSum(nAnt, 0), antMax(nAnt, 0);
      double maxSum = 0;
      for (size_t ch = 0; ch < l.nChan; ++ch) {
        const size_t i = ch * l.nPol + p;
        double mx = 0, sum = 0;
        bool has = false;
        for (size_t r = 0; r < v.size(); ++r) {
          const auto ab = l.ant(r);
          if (ab.first == ab.second || !finite(v[r][i])) continue;
          const double f = factorOf(k, l, e, r, i);
          if (f == 0.0) continue;
          has = has || maxAbs(v[r][i]) > 0;
          const double u = maxAbs(v[r][i]) / std::fabs(f);
          const double s = (std::fabs(v[r][i].real()) + std::fabs(v[r][i].imag())) / std::fabs(f);
          mx = std::max(mx, u);
          sum += s;
          for (int a : {ab.first, ab.second}) {
            antSum[size_t(a)] += s;
            antMax[size_t(a)] = std::max(antMax[size_t(a)], u);
          }
        }
        maxSum = std::max(maxSum, sum);
        if (!has) continue;
        ++groups;
        CHECK(mx <= maxLevel * 1.0001, "clipped",
              k.text() << ": channel " << ch << " pol " << p << " has a value of " << mx
                       << " (largest level is " << maxLevel << ")");
        CHECK(mx >= maxLevel * 0.98, "channel-not-scaled",
              k.text() << ": largest value of channel " << ch << " pol " << p << " is " << mx
                       << " while the largest level is " << maxLevel);
      }
      for (double s : antSum) maxSum = std::max(maxSum, s);
      for (size_t a = 0; a < nAnt; ++a) {
        if (antMax[a] == 0) continue;
        ++groups;
        const double gain = (maxLevel / antMax[a] - 1) * antSum[a];
        CHECK(gain <= 0.025 * maxSum, "antenna-not-scaled",
              k.text() << ": antenna " << a << " pol " << p << " has largest value " << antMax[a]
                       << " while the largest level is " << maxLevel << " (gain " << gain << " of "
                       << maxSum << ")");
      }
    }
  }
  c.count("groups", groups);
  c.label(k.norm == ref::AF ? "AF" : k.norm == ref::RF ? "RF" : "Row");
  if (groups >= 2) c.nontrivial();
}
FACET("C07", "block", fullRange, 120, 18000, 200000,
      "random blocks encoded without dithering: every row (Row), row-polarization and channel "
      "(RF) or channel-polarization (AF) with finite non-zero data reaches the outer level and AF "
      "antennas can not be scaled up; non-trivial: at least two groups");

// Antenna-based gains: the scale factors must follow them, so that weak antennas
// do not get the quantization error of strong ones.
void proportionality(Ctx &c) {
  Config k = kit::genConfig(c);
  kit::LayoutOpts o;
  o.minTime = o.maxTime = 1;
  o.maxRows = 3000;
  Layout l = kit::genLayout(c, o);
  // all baselines are needed to determine the antenna scales
  l.baselines.clear();
  const int nAnt = std::max(3, int(l.nAnt));
  const bool autos = c.chance(1, 3);
  for (int i = 0; i < nAnt; ++i)
    for (int j = autos ? i : i + 1; j < nAnt; ++j) l.baselines.emplace_back(i, j);
  l.nAnt = size_t(nAnt);
  const double spread = c.pick({1.0, 10.0, 100.0, 1000.0});
  const int target = int(c.below(3));  // antennas, channels or polarizations differ
  const double boost = c.pick({1.0, 1e3, 1e5});  // of autocorrelations
  Expand e(c.raw());
  std::vector<double> gA(size_t(nAnt) * l.nPol, 1), gC(l.visPerRow(), 1);
  for (size_t i = 0; i < gA.size(); ++i)
    if (target == 0) gA[i] = std::pow(spread, e.unit() - 0.5);
  for (size_t i = 0; i < gC.size(); ++i) {
    if (target == 1) gC[i] = std::pow(spread, 2 * e.unit() - 1);
    if (target == 2) gC[i] = i % l.nPol == 0 ? 1 : std::pow(spread, 2 * e.unit() - 1);
  }
  Vis v(l.rowsPerBlock(), std::vector<cf>(l.visPerRow()));
  std::vector<std::vector<double>> amp(v.size(), std::vector<double>(l.visPerRow()));
  for (size_t r = 0; r < v.size(); ++r)
    for (size_t i = 0; i < l.visPerRow(); ++i) {
      const size_t p = i % l.nPol;
      const auto ab = l.ant(r);
      amp[r][i] = gA[size_t(ab.first) * l.nPol + p] * gA[size_t(ab.second) * l.nPol + p] * gC[i];
      const double ph = 6.2831853 * e.unit(), m = (0.8 + 0.4 * e.unit()) * (ab.first == ab.second ? boost : 1);
      v[r][i] = cf(float(amp[r][i] * m * std::cos(ph)), float(amp[r][i] * m * std::sin(ph)));
    }
  c.note(caseText(k, l, false)).note(", spread ").note(spread).note(" target ").note(target).note(" boost ").note(boost);
  const Encoded en = encode(k, l, v, nullptr);
  const double maxLevel = quant(k).lv.back();
  size_t n = 0;
  for (size_t r = 0; r < v.size(); ++r) {
    const auto ab = l.ant(r);
    double rowAmp = 0;
    for (size_t i = 0; i < l.visPerRow(); ++i) rowAmp = std::max(rowAmp, maxAbs(v[r][i]));
    for (size_t i = 0; i < l.visPerRow(); ++i) {
      const double f = std::fabs(factorOf(k, l, en, r, i)) * maxLevel;
      // With AF and RF normalisation the error must be proportional to the
      // amplitude of this sample, with Row normalisation to that of the row.
      if (ab.first == ab.second) continue;
      if (k.norm == ref::RF && (target != 0 && l.nChan < 2)) continue;
      const double a = k.norm == ref::Row ? rowAmp : amp[r][i];
      ++n;
      c.subEvaluations++;
      CHECK(f <= a * 6.0 && f >= a * 0.1, "disproportionate",
            k.text() << " " << where(l, r, i, 0) << ": amplitude " << a << " is stored in a range of +-" << f);
    }
  }
  c.label(k.norm == ref::AF ? "AF" : k.norm == ref::RF ? "RF" : "Row");
  if (spread > 1 && n > 3) c.nontrivial();
}
FACET("C07", "proportional", proportionality, 24, 12000, 120000,
      "blocks whose antennas, channels or polarizations differ in gain by up to 1000, with "
      "autocorrelations up to 1e5 times stronger: the range in which a sample is stored stays "
      "proportional to its own amplitude (AF, RF) or that of its row (Row); non-trivial: gains differ");

// ================================================== C08 scaling and locality
void scaling(Ctx &c) {
  const Config k = kit::genConfig(c);
  const Layout l = genBlock(c);
  Vis v = kit::genVis(c, l);
  const bool dither = c.chance(1, 2);
  const uint32_t seed = c.raw();
  const bool perGroup = k.norm != ref::AF && c.chance(1, 2);
  Expand e(c.raw());
  double mx = 0, mn = 1e300;
  for (auto &row : v)
    for (auto &x : row)
      for (int p = 0; p < 2; ++p)
        if (std::isfinite(comp(x, p)) && comp(x, p) != 0)
          mx = std::max(mx, std::fabs(comp(x, p))), mn = std::min(mn, std::fabs(comp(x, p)));
  // stay inside the range of normal single precision values
  if (mn < 1e-26)
    for (auto &row : v)
      for (auto &x : row) {
        if (std::fabs(x.real()) < 1e-26f) x.real(0);
        if (std::fabs(x.imag()) < 1e-26f) x.imag(0);
      }
  const int kMax = 20;
  const int all = c.range(1, kMax) * (c.chance(1, 2) ? -1 : 1);
  std::vector<int> shift(v.size() * l.nPol, all);
  if (perGroup)
    for (size_t r = 0; r < v.size(); ++r)
      for (size_t p = 0; p < l.nPol; ++p)
        shift[r * l.nPol + p] = k.norm == ref::Row && p > 0 ? shift[r * l.nPol] : int(e.below(2 * kMax + 1)) - kMax;
  Vis s = v;
  for (size_t r = 0; r < v.size(); ++r)
    for (size_t i = 0; i < l.visPerRow(); ++i) {
      const int q = shift[r * l.nPol + i % l.nPol];
      s[r][i] = cf(std::ldexp(v[r][i].real(), q), std::ldexp(v[r][i].imag(), q));
    }
  c.note(caseText(k, l, dither)).note(perGroup ? ", per group" : ", 2^").note(all);
  std::mt19937 r1(seed), r2(seed);
  const Encoded a = encode(k, l, v, dither ? &r1 : nullptr), b = encode(k, l, s, dither ? &r2 : nullptr);
  CHECK(a.sym == b.sym, "scaled-symbols",
        k.text() << ": symbols change when the data are multiplied by a power of two");
  const Vis ya = decode(k, l, a), yb = decode(k, l, b);
  size_t nonzero = 0;
  for (size_t r = 0; r < v.size(); ++r)
    for (size_t i = 0; i < l.visPerRow(); ++i)
      for (int p = 0; p < 2; ++p) {
        const double x = comp(ya[r][i], p), y = comp(yb[r][i], p);
        c.subEvaluations++;
        if (!std::isfinite(x)) {
          CHECK(!std::isfinite(y), "scaled-finite", where(l, r, i, p));
          continue;
        }
        const double expect = std::ldexp(x, shift[r * l.nPol + i % l.nPol]);
        // scale factors below the smallest normal float loose precision
        if (std::fabs(expect) < 1e-30 || std::fabs(x) < 1e-30) continue;
        nonzero++;
        CHECK(expect == y, "scaled-values",
              k.text() << " " << where(l, r, i, p) << ": scaled data decode to " << y
                       << ", expected exactly " << expect);
      }
  c.label(perGroup ? "per row" : "whole block");
  if (nonzero >= 2) c.nontrivial();
}
FACET("C08", "scaling", scaling, 120, 15000, 150000,
      "a random block and the block multiplied by 2^k (one k, or one per row / row-polarization "
      "where the normalisation is per row) encoded with the same noise: equal symbols and exactly "
      "scaled decoded values; non-trivial: at least two non-zero decoded components");

void polLocality(Ctx &c) {
  Config k = kit::genConfig(c);
  if (k.norm == ref::Row) k.norm = c.chance(1, 2) ? ref::RF : ref::AF;
  Layout l = genBlock(c);
  if (l.nPol == 1) l.nPol = size_t(c.range(2, 4));
  const Vis v = kit::genVis(c, l), other = kit::genVis(c, l);
  const size_t pol = c.below(uint32_t(l.nPol)), pol2 = (pol + 1 + c.below(uint32_t(l.nPol - 1))) % l.nPol;
  const bool dither = c.chance(1, 2);
  const uint32_t seed = c.raw();
  c.note(caseText(k, l, dither)).note(", change pol ").note(pol).note(", exchange with ").note(pol2);
  auto run = [&](const Vis &x, bool d) {
    std::mt19937 rnd(seed);
    const Encoded e = encode(k, l, x, d ? &rnd : nullptr);
    return std::make_pair(e, decode(k, l, e));
  };
  auto same = [&](const cf &a, const cf &b) {
    for (int p = 0; p < 2; ++p)
      if (!(comp(a, p) == comp(b, p) || (std::isnan(comp(a, p)) && std::isnan(comp(b, p))))) return false;
    return true;
  };
  auto base = run(v, dither);
  // change one polarization. Non-finite values draw noise too, so the other
  // polarizations get the same noise.
  Vis w = v;
  bool changed = false;
  for (size_t r = 0; r < v.size(); ++r)
    for (size_t ch = 0; ch < l.nChan; ++ch) {
      cf &x = w[r][ch * l.nPol + pol];
      changed = changed || !same(x, other[r][ch * l.nPol + pol]);
      x = other[r][ch * l.nPol + pol];
    }
  auto mod = run(w, dither);
  for (size_t r = 0; r < v.size(); ++r)
    for (size_t i = 0; i < l.visPerRow(); ++i) {
      if (i % l.nPol == pol) continue;
      c.subEvaluations++;
      CHECK(same(base.second[r][i], mod.second[r][i]), "pol-leak",
            k.text() << " " << where(l, r, i, 0) << ": decoded value changed from "
                     << base.second[r][i] << " to " << mod.second[r][i]
                     << " after changing the data of polarization " << pol);
    }
  // exchange two polarizations (without dithering, which is not symmetric)
  Vis x = v;
  for (auto &row : x)
    for (size_t ch = 0; ch < l.nChan; ++ch) std::swap(row[ch * l.nPol + pol], row[ch * l.nPol + pol2]);
  auto a = run(v, false), b = run(x, false);
  for (size_t r = 0; r < v.size(); ++r)
    for (size_t i = 0; i < l.visPerRow(); ++i) {
      const size_t p = i % l.nPol;
      const size_t j = i - p + (p == pol ? pol2 : p == pol2 ? pol : p);
      c.subEvaluations++;
      CHECK(same(a.second[r][i], b.second[r][j]), "pol-exchange",
            k.text() << " " << where(l, r, i, 0) << ": decoded as " << a.second[r][i]
                     << ", with polarizations exchanged as " << b.second[r][j]);
    }
  if (changed) c.nontrivial();
}
FACET("C08", "polarizations", polLocality, 120, 12000, 120000,
      "a random block, the same block with the data of one polarization replaced, and with two "
      "polarizations exchanged: decoded values of the other polarizations identical, exchanged "
      "results exchanged; non-trivial: the replaced data differ");

// ========================================================= C09 no carry-over
void noState(Ctx &c) {
  const Config k = kit::genConfig(c);
  kit::LayoutOpts o;
  o.minTime = o.maxTime = 1;
  o.maxRows = 1200;
  Layout l = kit::genLayout(c, o);
  const int n = c.range(2, 5);
  // blocks of one encoder share polarizations and channels but may have other
  // baselines, other data and other antennas
  std::vector<Layout> ls;
  std::vector<Vis> vs;
  for (int b = 0; b < n; ++b) {
    Layout m = l;
    if (c.chance(1, 2)) {
      Layout x = kit::genLayout(c, o);
      m.baselines = x.baselines;
      m.nAnt = x.nAnt;
      while (m.baselines.size() * m.visPerRow() > 6000) m.baselines.resize(m.baselines.size() / 2);
    }
    ls.push_back(m);
    vs.push_back(kit::genVis(c, m));
  }
  auto shared = makeEncoder(k, l);
  auto sharedDec = c.chance(1, 2) ? makeEncoder(k, l) : nullptr;
  TimeBlockEncoder &dec = sharedDec ? *sharedDec : *shared;
  c.note(k.text()).note(" ").note(n).note(" blocks, ").note(l.text());
  std::vector<Encoded> done;
  for (int b = 0; b < n; ++b) {
    const bool dither = c.chance(1, 2);
    const uint32_t seed = c.raw();
    std::mt19937 r1(seed), r2(seed);
    const Encoded fresh = encode(k, ls[size_t(b)], vs[size_t(b)], dither ? &r1 : nullptr);
    const Encoded reused = encodeWith(*shared, k, ls[size_t(b)], vs[size_t(b)], dither ? &r2 : nullptr);
    c.subEvaluations++;
    CHECK(fresh.sym == reused.sym, "reused-symbols",
          k.text() << ": block " << b << " gets other symbols from an encoder that was used before");
    CHECK(memcmp(fresh.meta.data(), reused.meta.data(), fresh.meta.size() * 4) == 0 ||
              [&] {
                for (size_t i = 0; i < fresh.meta.size(); ++i)
                  if (!(fresh.meta[i] == reused.meta[i] ||
                        (std::isnan(fresh.meta[i]) && std::isnan(reused.meta[i]))))
                    return false;
                return true;
              }(),
          "reused-meta", k.text() << ": block " << b << " gets other scale factors from an encoder that was used before");
    CHECK(!dither || r1 == r2, "noise-count", "different number of random values used");
    done.push_back(fresh);
    // decode some earlier block with the shared decoder, in a random order with
    // repetitions (decodeWith compares repeated decodes)
    const size_t which = c.below(uint32_t(done.size()));
    Expand e(c.raw());
    std::vector<size_t> order;
    const size_t rows = ls[which].rowsPerBlock();
    for (size_t i = 0; i < rows + 3; ++i) order.push_back(e.below(uint32_t(rows)));
    const Vis y = decodeWith(dec, k, ls[which], done[which], order);
    const Vis z = decode(k, ls[which], done[which]);
    for (size_t r = 0; r < rows; ++r) {
      if (y[r].empty()) continue;
      c.subEvaluations++;
      CHECK(memcmp(y[r].data(), z[r].data(), y[r].size() * sizeof(cf)) == 0, "reused-decoder",
            k.text() << ": row " << r << " of block " << which << " decodes differently");
    }
  }
  c.nontrivial();
}
FACET("C09", "block", noState, 160, 9000, 90000,
      "2-5 random blocks (also with different baselines and antennas) through one encoder/decoder "
      "compared with fresh ones, rows decoded in random order with repetitions; non-trivial: always");

void noStateWeights(Ctx &c) {
  Config k = kit::genConfig(c);
  Layout l = genBlock(c, 800);
  const size_t q = size_t(1) << k.weightBits, rows = l.rowsPerBlock();
  WeightBlockEncoder shared(l.nPol, l.nChan, q);
  const int n = c.range(2, 5);
  c.note(k.weightBits).note(" bits ").note(n).note(" blocks ").note(l.text());
  struct B {
    float meta;
    std::vector<unsigned> sym;
  };
  std::vector<B> done;
  for (int b = 0; b < n; ++b) {
    const kit::Weights w = kit::genWeights(c, l);
    TimeBlockBuffer<float> buf(l.nPol, l.nChan);
    for (size_t r = 0; r < rows; ++r) buf.SetData(r, 0, 1, w[r].data());
    B x, y;
    x.sym.resize(rows * l.nChan);
    y.sym.resize(rows * l.nChan);
    WeightBlockEncoder fresh(l.nPol, l.nChan, q);
    fresh.Encode(buf, &x.meta, x.sym.data());
    shared.Encode(buf, &y.meta, y.sym.data());
    c.subEvaluations++;
    CHECK(x.meta == y.meta && x.sym == y.sym, "reused-weights", "weight block " << b << " encodes differently");
    done.push_back(x);
    const size_t which = c.below(uint32_t(done.size()));
    WeightBlockEncoder d(l.nPol, l.nChan, q);
    d.InitializeDecode(&done[which].meta);
    shared.InitializeDecode(&done[which].meta);
    TimeBlockBuffer<float> o1(l.nPol, l.nChan), o2(l.nPol, l.nChan);
    o1.resize(rows);
    o2.resize(rows);
    Expand e(c.raw());
    for (size_t i = 0; i < rows; ++i) d.Decode(o1, done[which].sym.data(), i);
    for (size_t i = 0; i < rows + 3; ++i) {
      const size_t r = e.below(uint32_t(rows));
      shared.Decode(o2, done[which].sym.data(), r);
      CHECK(o1[r].visibilities == o2[r].visibilities, "reused-weights", "weight row " << r << " decodes differently");
    }
  }
  c.nontrivial();
}
FACET("C09", "weights", noStateWeights, 60, 9000, 60000,
      "2-5 random weight blocks through one encoder/decoder compared with fresh ones; "
      "non-trivial: always");

}  // namespace
