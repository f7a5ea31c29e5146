// Properties of the building blocks: bit packing (C04), quantizer levels and
// encoding (C05), dithering (C06), buffer vector (C22), dictionary search (C23).
#include "dict_dbg.h"
#include "pbt.h"
#include "ref.h"

#include <memory>
#include <random>

#include "bytepacker.h"
#include "stochasticencoder.h"
#include "uvector.h"
#include "weightencoder.h"

#include <limits>
#include <list>
#include <optional>

using namespace pbt;
using dyscostman::BytePacker;
using dyscostman::Dictionary;
using Enc = dyscostman::StochasticEncoder<float>;

// these cases take milliseconds
#undef FACET
#define FACET(...)                                              \
  static ::pbt::Register PBT_CAT(reg_, __COUNTER__)([] {        \
    ::pbt::Facet f{__VA_ARGS__};                                \
    f.hang = 20;                                                \
    return f;                                                   \
  }())

namespace {

const unsigned kBits[] = {2, 3, 4, 6, 8, 10, 12, 16};

// ================================================================ C04 packing

void packRoundTrip(Ctx &c) {
  const unsigned bits = kBits[c.below(8)];
  const size_t n = size_t(c.chance(1, 12) ? (c.chance(1, 8) ? c.range(65530, 140000) : c.range(0, 20000)) : c.range(0, 70));
  const int pattern = int(c.below(6));
  Expand e(c.raw());
  const uint32_t top = (1u << bits) - 1;
  // exactly sized heap buffers, so that the sanitizer sees any overrun
  std::unique_ptr<unsigned[]> in(new unsigned[n]);
  const uint32_t one = n ? e.below(uint32_t(n)) : 0;
  for (size_t i = 0; i < n; ++i) switch (pattern) {
      case 0: in[i] = e.below(top + 1); break;
      case 1: in[i] = top; break;
      case 2: in[i] = 0; break;
      case 3: in[i] = i == one ? top : 0; break;
      case 4: in[i] = i == one ? 0 : top; break;
      default: in[i] = 1u << e.below(bits);
    }
  c.note("pack ").note(bits).note(" bits, ").note(n).note(" symbols, pattern ").note(pattern);
  const size_t size = BytePacker::bufferSize(n, bits);
  CHECK(size == ref::packedSize(n, bits), "size",
        "bufferSize(" << n << ", " << bits << ") = " << size << ", expected "
                      << ref::packedSize(n, bits));
  std::unique_ptr<unsigned char[]> expected(new unsigned char[size + 1]());
  for (size_t i = 0; i < n; ++i) ref::putSymbol(expected.get(), i, bits, in[i]);
  std::unique_ptr<unsigned> copy;
  std::vector<unsigned> before(in.get(), in.get() + n);
  for (int fill = 0; fill < 2; ++fill) {
    std::unique_ptr<unsigned char[]> packed(new unsigned char[size]);
    memset(packed.get(), fill ? 0xFF : 0x00, size);
    BytePacker::pack(bits, packed.get(), in.get(), n);
    CHECK(std::equal(before.begin(), before.end(), in.get()), "input-modified",
          "pack() changed its input");
    for (size_t i = 0; i < n; ++i)
      CHECK(ref::getSymbol(packed.get(), i, bits) == in[i], "layout",
            bits << " bits, " << n << " symbols: symbol " << i << " is "
                 << ref::getSymbol(packed.get(), i, bits) << " in the packed bytes, packed "
                 << in[i] << " (buffer prefilled with " << (fill ? 255 : 0) << ")");
    // the last byte's unused bits must not depend on the old buffer contents
    CHECK(memcmp(packed.get(), expected.get(), size) == 0, "padding",
          bits << " bits, " << n << " symbols: packed bytes differ from the reference");
    std::unique_ptr<unsigned[]> out(new unsigned[n]);
    for (size_t i = 0; i < n; ++i) out[i] = 0xDEADBEEF;
    BytePacker::unpack(bits, out.get(), packed.get(), n);
    for (size_t i = 0; i < n; ++i)
      CHECK(out[i] == in[i], "roundtrip",
            bits << " bits, " << n << " symbols: symbol " << i << " unpacked as " << out[i]
                 << ", packed " << in[i]);
    // padding bits of a file must be ignored when unpacking
    if (size > 0 && (n * bits) % 8 != 0) {
      packed[size - 1] |= uint8_t(0xFF << ((n * bits) % 8));
      BytePacker::unpack(bits, out.get(), packed.get(), n);
      for (size_t i = 0; i < n; ++i)
        CHECK(out[i] == in[i], "roundtrip-padding",
              bits << " bits, " << n << " symbols: padding bits change symbol " << i);
    }
    c.subEvaluations += 3 * n;
  }
  c.label(std::to_string(bits) + " bits");
  if (n > 0 && (n * bits) % 8 != 0) c.label("partial last byte");
  if (n > 0 && pattern != 2) c.nontrivial();
}

void packRefuse(Ctx &c) {
  unsigned bits = c.chance(1, 3) ? c.raw() : unsigned(c.range(0, 40));
  for (unsigned b : kBits)
    if (b == bits) return;
  const size_t n = size_t(c.range(0, 40));
  std::vector<unsigned> in(n + 1, 0);
  std::vector<unsigned char> packed(n * 5 + 64, 0x5A);
  c.note("refuse ").note(bits).note(" bits, ").note(n).note(" symbols");
  bool thrown = false;
  try {
    BytePacker::pack(bits, packed.data(), in.data(), n);
  } catch (std::exception &) {
    thrown = true;
  }
  CHECK(thrown, "pack-accepted", "pack() accepted " << bits << " bits");
  for (unsigned char b : packed)
    CHECK(b == 0x5A, "pack-wrote", "pack() wrote before refusing " << bits << " bits");
  thrown = false;
  try {
    BytePacker::unpack(bits, in.data(), packed.data(), n);
  } catch (std::exception &) {
    thrown = true;
  }
  CHECK(thrown, "unpack-accepted", "unpack() accepted " << bits << " bits");
  c.nontrivial();
}

FACET("C04", "roundtrip", packRoundTrip, 8, 150000, 2000000,
      "random bit count, length (all residues; up to 20000) and symbol pattern in exactly sized "
      "buffers, bytes compared with an independent bit-stream implementation; non-trivial: at "
      "least one symbol that is not zero");
FACET("C04", "refusal", packRefuse, 4, 2000, 20000,
      "random unsupported bit counts given to pack and unpack; non-trivial: always");

// ============================================================ C05/C06 encoder

struct EncSpec {
  ref::Dist dist;
  unsigned bits;
  double par;  // nu or truncation
  bool operator<(const EncSpec &o) const {
    return std::tie(dist, bits, par) < std::tie(o.dist, o.bits, o.par);
  }
  double trunc() const { return dist == ref::TruncGaussian ? par : 2.5; }
  double nu() const { return dist == ref::StudentT ? par : 1.0; }
  std::string text() const {
    static const char *n[] = {"Gaussian", "Uniform", "StudentT", "TruncatedGaussian"};
    std::ostringstream s;
    s << n[dist] << " " << bits << " bits";
    if (dist == ref::StudentT) s << " nu=" << par;
    if (dist == ref::TruncGaussian) s << " truncation=" << par;
    return s.str();
  }
};

Enc makeEncoder(const EncSpec &s) {
  const size_t q = size_t(1) << s.bits;
  switch (s.dist) {
    case ref::Gaussian: return Enc(q, 1.0f);
    case ref::Uniform: return Enc(q, 1.0f, false);
    case ref::StudentT: return Enc::StudentTEncoder(q, s.par, 1.0);
    default: return Enc::TruncatedGausEncoder(q, s.par, 1.0);
  }
}

struct Tables {
  Enc enc;
  std::vector<double> levels, bounds;
};
const Tables &tables(const EncSpec &s) {
  static std::map<EncSpec, std::unique_ptr<Tables>> cache;
  auto it = cache.find(s);
  if (it == cache.end()) {
    if (cache.size() > 120) cache.clear();
    std::unique_ptr<Tables> t(new Tables{makeEncoder(s), {}, {}});
    t->levels = ref::levels(s.dist, s.bits, s.trunc(), s.nu());
    const size_t n = t->levels.size();
    for (size_t i = 0; i + 1 < n; ++i)
      t->bounds.push_back(ref::boundary(s.dist, s.bits, i, s.trunc(), s.nu()));
    it = cache.emplace(s, std::move(t)).first;
  }
  return *it->second;
}

EncSpec genSpec(Ctx &c, bool freeParameter) {
  EncSpec s;
  s.dist = c.pick({ref::TruncGaussian, ref::Gaussian, ref::Uniform, ref::StudentT});
  s.bits = kBits[c.weighted({4, 4, 4, 4, 4, 3, 2, 1})];
  s.par = 0;
  const bool freeP = freeParameter && s.bits <= 12 && c.chance(1, 2);
  const double u = c.unit();
  const uint32_t k = c.raw();
  if (s.dist == ref::TruncGaussian) {
    const double fixed[] = {2.5, 1.0, 1.5, 2.0, 3.0, 4.0, 0.1, 6.0};
    s.par = freeP ? std::exp(std::log(0.01) + u * std::log(800.0)) : fixed[k % 8];
  } else if (s.dist == ref::StudentT) {
    const double fixed[] = {1.0, 2.0, 3.0, 5.0, 10.0, 0.5, 50.0, 1e4};
    s.par = freeP ? std::exp(std::log(0.3) + u * std::log(3e4)) : fixed[k % 8];
    if (s.bits > 12 && s.par < 1) s.par = 1.0;  // (only because these take seconds)
  }
  return s;
}

// Allowed numerical deviation of a level or boundary from the reference.
double levelTol(const EncSpec &s, double x, double top) {
  (void)s;
  return 2e-6 * std::fabs(x) + 2e-7 * std::min(top, 1.0);
}

void levelsMatch(Ctx &c) {
  const EncSpec s = genSpec(c, true);
  c.note(s.text());
  const Tables &t = tables(s);
  const size_t n = t.levels.size();
  const Enc &e = t.enc;
  CHECK(e.QuantizationCount() == n + 1, "count",
        s.text() << ": QuantizationCount() = " << e.QuantizationCount());
  double prev = -std::numeric_limits<double>::infinity();
  for (size_t i = 0; i < n; ++i) {
    const double v = e.Decode(unsigned(i));
    CHECK(std::isfinite(v), "finite", s.text() << ": level " << i << " is " << v);
    CHECK(v > prev, "increasing", s.text() << ": level " << i << " (" << v
                                           << ") is not above the previous level (" << prev << ")");
    prev = v;
    const double tol = levelTol(s, t.levels[i], t.levels.back());
    CHECK(std::fabs(v - t.levels[i]) <= tol, "level",
          s.text() << ": level " << i << " is " << v << ", reference " << t.levels[i]);
    const double w = e.Decode(unsigned(n - 1 - i));
    CHECK(std::fabs(v + w) <= tol, "symmetric",
          s.text() << ": levels " << i << " and " << n - 1 - i << " are " << v << " and " << w);
    // independent check of the reference itself through the forward CDF
    double q = 0;
    if (s.dist == ref::StudentT) q = gsl_cdf_tdist_P(v, s.par);
    if (s.dist == ref::Gaussian) q = 0.5 * std::erfc(-v / std::sqrt(6.0));
    if (s.dist == ref::Uniform) q = 0.5 + v / (2 * std::sqrt(3.0));
    if (s.dist == ref::TruncGaussian) {
      const double z = 0.5 * std::erfc(s.par / std::sqrt(2.0));
      q = (0.5 * std::erfc(-v / std::sqrt(2.0)) - z) / (1 - 2 * z);
    }
    CHECK(std::fabs(q - (double(i) + 0.5) / double(n)) <= 2e-5 / double(n) + 1e-6, "quantile",
          s.text() << ": level " << i << " is at quantile " << q << ", expected "
                   << (double(i) + 0.5) / double(n));
    c.subEvaluations++;
  }
  CHECK(e.MaxQuantity() == e.Decode(unsigned(n - 1)) && e.MinQuantity() == e.Decode(0), "extremes",
        s.text() << ": MaxQuantity/MinQuantity do not equal the outer levels");
  CHECK(std::isnan(e.Decode(unsigned(n))), "nan", s.text() << ": last symbol decodes to "
                                                          << e.Decode(unsigned(n)));
  c.label(s.text().substr(0, s.text().find(' ')));
  c.nontrivial();
}

float genValue(Ctx &c, Expand &x, const Tables &t, std::string *kind) {
  const size_t n = t.levels.size();
  const float mx = std::numeric_limits<float>::max();
  switch (c.below(9)) {
    case 0: *kind = "inside"; return float(t.levels.back() * x.sym());
    case 1: {
      *kind = "near level";
      float v = t.enc.Decode(x.below(uint32_t(n)));
      const uint32_t k = x.below(5);
      if (k == 1) v = std::nextafter(v, mx);
      if (k == 2) v = std::nextafter(v, -mx);
      if (k == 3) v += float(1e-6 * x.sym());
      return v;
    }
    case 2: {
      *kind = "near boundary";
      float v = float(t.bounds[x.below(uint32_t(n - 1))]);
      const uint32_t k = x.below(5);
      if (k == 1) v = std::nextafter(v, mx);
      if (k == 2) v = std::nextafter(v, -mx);
      if (k == 3) v += float(1e-6 * x.sym());
      return v;
    }
    case 3: *kind = "outside"; return float((x.below(2) ? 1 : -1) * t.levels.back() * (1 + 3 * x.unit()));
    case 4: {
      *kind = "extreme";
      const float v[] = {mx, -mx, 0.0f, -0.0f, std::numeric_limits<float>::min(),
                         std::numeric_limits<float>::denorm_min(),
                         -std::numeric_limits<float>::denorm_min(), 1e30f, -1e30f};
      return v[x.below(9)];
    }
    case 5: *kind = "small"; return float(x.sym() * std::pow(10.0, -12 * x.unit()));
    case 6: {
      *kind = "any bits";
      uint32_t b = uint32_t(x.u64());
      float f;
      memcpy(&f, &b, 4);
      return std::isfinite(f) ? f : 0.5f;
    }
    case 7: *kind = "normal"; return float(x.normal());
    default: {
      *kind = "between";
      const uint32_t i = x.below(uint32_t(n - 1));
      const double a = t.enc.Decode(i), b = t.enc.Decode(i + 1);
      return float(a + (b - a) * x.unit());
    }
  }
}

void encodeNearest(Ctx &c) {
  const EncSpec s = genSpec(c, true);
  const Tables &t = tables(s);
  const size_t n = t.levels.size();
  const int count = c.range(1, 40);
  c.note(s.text()).note(": ").note(count).note(" values");
  std::vector<float> vals;
  for (int k = 0; k < count; ++k) {
    Expand x(c.raw());
    std::string kind;
    const float v = genValue(c, x, t, &kind);
    c.label(kind);
    if (k < 3) c.note(" ").note(v);
    vals.push_back(v);
  }
  std::sort(vals.begin(), vals.end());
  unsigned prev = 0;
  for (float v : vals) {
    const unsigned sym = t.enc.Encode(v);
    c.subEvaluations++;
    CHECK(sym < n, "range", s.text() << ": Encode(" << v << ") = " << sym);
    CHECK(sym >= prev, "monotonic", s.text() << ": Encode(" << v << ") = " << sym
                                             << " is below the symbol of a smaller value, " << prev);
    prev = sym;
    const double tolV = levelTol(s, v, t.levels.back());
    const double lo = sym == 0 ? -INFINITY : t.bounds[sym - 1];
    const double hi = sym == n - 1 ? INFINITY : t.bounds[sym];
    CHECK(v >= lo - tolV && v <= hi + tolV, "interval",
          s.text() << ": Encode(" << v << ") = " << sym << " but its interval is [" << lo << ", "
                   << hi << "]");
  }
  // levels encode to themselves
  Expand x(c.raw());
  for (int k = 0; k < 40; ++k) {
    const unsigned sym = n <= 40 ? unsigned(size_t(k) % n) : x.below(uint32_t(n));
    const unsigned got = t.enc.Encode(t.enc.Decode(sym));
    CHECK(got == sym, "idempotent", s.text() << ": Encode(Decode(" << sym << ")) = " << got);
    c.subEvaluations++;
  }
  // the boundary on the right of each symbol
  for (int k = 0; k < 10; ++k) {
    const unsigned sym = x.below(uint32_t(n - 1));
    const float r = t.enc.RightBoundary(sym), mx = std::numeric_limits<float>::max();
    CHECK(std::fabs(r - t.bounds[sym]) <= levelTol(s, r, t.levels.back()), "boundary",
          s.text() << ": RightBoundary(" << sym << ") = " << r << ", reference " << t.bounds[sym]);
    const unsigned below = t.enc.Encode(std::nextafter(r, -mx)), above = t.enc.Encode(std::nextafter(r, mx));
    CHECK(below == sym && above == sym + 1, "boundary",
          s.text() << ": values below and above RightBoundary(" << sym << ") = " << r << " have symbols " << below << " and " << above);
    c.subEvaluations++;
  }
  for (float v : {std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(),
                  std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::quiet_NaN()}) {
    CHECK(t.enc.Encode(v) == n, "nonfinite", s.text() << ": Encode(" << v << ") = " << t.enc.Encode(v));
    CHECK(t.enc.EncodeWithDithering(v, unsigned(c.raw() & 0x7FFFFFFF)) == n, "nonfinite",
          s.text() << ": EncodeWithDithering(" << v << ") is not the NaN symbol");
  }
  c.nontrivial();
}

// Copies and assignments of encoders must behave like the original.
void encoderCopies(Ctx &c) {
  EncSpec s[3];
  std::vector<Enc> e;
  std::vector<const Tables *> t;
  for (int i = 0; i < 3; ++i) {
    s[i] = genSpec(c, false);
    if (s[i].bits > 10) s[i].bits = 10;
    e.push_back(makeEncoder(s[i]));
  }
  int model[3] = {0, 1, 2};
  const int ops = c.range(1, 8);
  for (int k = 0; k < ops; ++k) {
    const size_t a = c.below(3), b = c.below(3);
    switch (c.below(4)) {
      case 0: e[a] = e[b]; model[a] = model[b]; break;
      case 1: { Enc x(e[b]); e[a] = x; model[a] = model[b]; break; }
      case 2: { Enc x(e[b]); e[a] = std::move(x); model[a] = model[b]; break; }
      default: { Enc x(std::move(e[a])); e[a] = std::move(x); break; }
    }
  }
  c.note(ops).note(" copies of ").note(s[0].text()).note(", ").note(s[1].text()).note(", ").note(s[2].text());
  for (int i = 0; i < 3; ++i) {
    const Enc ref = makeEncoder(s[model[i]]);
    const size_t n = ref.QuantizationCount();
    CHECK(e[i].QuantizationCount() == n, "copy-count", "copy of " << s[model[i]].text() << " has "
          << e[i].QuantizationCount() << " symbols");
    for (size_t q = 0; q < n; ++q) {
      const float x = e[i].Decode(unsigned(q)), y = ref.Decode(unsigned(q));
      c.subEvaluations++;
      CHECK(x == y || (std::isnan(x) && std::isnan(y)), "copy-level",
            "copy of " << s[model[i]].text() << ": symbol " << q << " decodes to " << x << ", expected " << y);
    }
    for (int k = 0; k < 30; ++k) {
      Expand x(c.raw());
      const float v = float(ref.MaxQuantity() * 1.2 * x.sym());
      CHECK(e[i].Encode(v) == ref.Encode(v), "copy-encode", "copy of " << s[model[i]].text() << " encodes " << v << " differently");
    }
  }
  if (ops > 1) c.nontrivial();
}
FACET("C05", "copies", encoderCopies, 150, 2400, 12000,
      "three encoders, 1-8 random copy/move constructions and assignments, then all symbols and 30 "
      "values each compared with a fresh encoder; non-trivial: more than one operation");

FACET("C05", "levels", levelsMatch, 6, 2000, 6000,
      "random distribution, bit rate and parameter; each level compared with the quantile from an "
      "independent table and the forward CDF, symmetry and strict order of all levels; "
      "non-trivial: always");
FACET("C05", "encode", encodeNearest, 130, 40000, 600000,
      "1-40 values per case: inside, at and next to levels and boundaries, outside, extreme, "
      "denormal and arbitrary bit patterns; non-trivial: always");

void ditherAdjacent(Ctx &c) {
  const EncSpec s = genSpec(c, true);
  const Tables &t = tables(s);
  const size_t n = t.levels.size();
  const Enc &e = t.enc;
  const int count = c.range(1, 25);
  c.note(s.text()).note(": ").note(count).note(" values");
  const uint32_t dmax = (1u << 31) - 1;
  auto dist = Enc::GetDitherDistribution();
  CHECK(dist.min() == 0 && dist.max() == dmax, "distribution",
        "dither distribution is [" << dist.min() << ", " << dist.max() << "]");
  for (int k = 0; k < count; ++k) {
    Expand x(c.raw());
    std::string kind;
    const float v = genValue(c, x, t, &kind);
    c.label(kind);
    // bracket from the levels as they decode
    size_t lo = 0, hi = n;  // first level >= v
    while (lo < hi) {
      const size_t m = (lo + hi) / 2;
      if (e.Decode(unsigned(m)) < v) lo = m + 1;
      else hi = m;
    }
    unsigned left, right;
    if (lo == 0) left = right = 0;
    else if (lo == n) left = right = unsigned(n - 1);
    else if (e.Decode(unsigned(lo)) == v) left = right = unsigned(lo);
    else {
      left = unsigned(lo - 1);
      right = unsigned(lo);
    }
    // locate the switch point over the complete dither range
    auto up = [&](uint32_t d) {
      const unsigned sym = e.EncodeWithDithering(v, d);
      c.subEvaluations++;
      CHECK(sym == left || sym == right, "adjacent",
            s.text() << ": EncodeWithDithering(" << v << ", " << d << ") = " << sym
                     << ", adjacent levels are " << left << " and " << right);
      return sym == right;
    };
    uint64_t a = 0, b = uint64_t(dmax) + 1;  // up(d) for d<switch
    while (a < b) {
      const uint64_t m = (a + b) / 2;
      if (up(uint32_t(m))) a = m + 1;
      else b = m;
    }
    for (int q = 0; q < 12; ++q) {
      const uint32_t d = q == 0 ? 0 : q == 1 ? dmax : uint32_t(x.u64()) & dmax;
      if (left != right)
        CHECK(up(d) == (d < a), "monotonic",
              s.text() << ": value " << v << ", dither " << d << " is not on the side of switch point "
                       << a);
      else
        up(d);
    }
    if (left != right) {
      const double L = e.Decode(left), R = e.Decode(right);
      const double frac = (double(v) - L) / (R - L);
      const double got = double(a) / 2147483648.0;
      // values next to a level can not be represented better than their own ulp
      const double ulp = 1.2e-7 * std::max(std::fabs(double(v)), std::fabs(L)) / (R - L);
      CHECK(std::fabs(got - frac) <= 1e-6 + 1e-7 * ulp + 2e-9, "unbiased",
            s.text() << ": value " << v << " between " << L << " and " << R
                     << ": upper level for fraction " << got << " of the dither values, expected "
                     << frac);
      c.count("switch points located", 1);
      c.nontrivial();
    }
  }
}

FACET("C06", "switchpoint", ditherAdjacent, 110, 20000, 300000,
      "1-25 values per case; the dither value at which the encoder changes level is located by "
      "bisection over the full 2^31 range and compared with the relative position, plus 12 random "
      "dither values; non-trivial: a value strictly between two levels");

// ========================================================= C23 dictionary search

void dictSearch(Ctx &c) {
  size_t n;
  switch (c.below(6)) {
    case 0: n = size_t(c.range(1, 20)); break;
    case 1: n = size_t(c.range(1, 300)); break;
    case 2: n = (size_t(1) << c.range(1, 16)) - 1; break;
    case 3: n = (size_t(1) << c.range(0, 16)); break;
    case 4: n = (size_t(1) << c.range(0, 16)) + 1; break;
    default: n = size_t(c.range(1, 70000));
  }
  const int kind = int(c.below(5));
  Expand e(c.raw());
  std::vector<float> v(n);
  float x = float(-1.0 - 10 * e.unit());
  if (kind == 1) x = -1e-38f;
  if (kind == 4) x = -std::numeric_limits<float>::max();
  for (size_t i = 0; i < n; ++i) {
    v[i] = x;
    switch (kind) {
      case 0: x += float(0.001 + e.unit()); break;
      case 1: x = std::nextafter(x, std::numeric_limits<float>::max()); break;  // denormals, zero
      case 2: x = e.below(2) ? std::nextafter(x, 1e30f) : x + float(e.unit() * 1e-3 + 1e-5); break;
      case 3: x += float(1 + e.below(3)); break;
      default: x = x < 0 ? x * 0.5f : (x + 1e-30f) * 2.0f;
    }
    if (!(x > v[i])) x = std::nextafter(v[i], std::numeric_limits<float>::infinity());
    if (!std::isfinite(x)) {
      n = i + 1;
      v.resize(n);
    }
  }
  if (c.chance(1, 4)) v[n - 1] = std::numeric_limits<float>::max();
  for (size_t i = 1; i < n; ++i)
    if (!(v[i] > v[i - 1])) return;
  Dictionary d(n);
  std::copy(v.begin(), v.end(), d.begin());
  std::vector<float> probes;
  const float inf = std::numeric_limits<float>::infinity();
  if (n <= 40)
    for (float y : v) {
      probes.push_back(y);
      probes.push_back(std::nextafter(y, inf));
      probes.push_back(std::nextafter(y, -inf));
    }
  for (int k = 0; k < 40; ++k) {
    const size_t i = k == 0 ? 0 : k == 1 ? n - 1 : e.below(uint32_t(n));
    const float y = v[i];
    switch (e.below(4)) {
      case 0: probes.push_back(y); break;
      case 1: probes.push_back(std::nextafter(y, inf)); break;
      case 2: probes.push_back(std::nextafter(y, -inf)); break;
      default: probes.push_back(i + 1 < n ? y + (v[i + 1] - y) * 0.5f : y);
    }
  }
  for (float y : {inf, -inf, 0.0f, -0.0f, std::numeric_limits<float>::max(),
                  -std::numeric_limits<float>::max()})
    probes.push_back(y);
  c.note("dictionary of ").note(n).note(" kind ").note(kind).note(", ").note(probes.size()).note(" probes");
  std::vector<float> inRange;
  std::vector<uint32_t> expectedIn;
  for (float p : probes) {
    const size_t want = size_t(std::lower_bound(v.begin(), v.end(), p) - v.begin());
    auto check = [&](const char *name, Dictionary::const_iterator it) {
      c.subEvaluations++;
      CHECK(size_t(it - d.begin()) == want, name,
            name << "(" << p << ") in a dictionary of " << n << " returned index "
                 << (it - d.begin()) << ", expected " << want);
    };
    check("lower_bound_branchless", d.lower_bound_branchless(p));
    check("lower_bound_one_minimum", d.lower_bound_one_minimum(p));
    check("lower_bound_slow", d.lower_bound_slow(p));
    if (n >= 2) {
      check("lower_bound", d.lower_bound(p));
      check("lower_bound_branchless_two_minimum", d.lower_bound_branchless_two_minimum(p));
      check("lower_bound_two_minimum", d.lower_bound_two_minimum(p));
      inRange.push_back(p);
      expectedIn.push_back(uint32_t(want));
    }
  }
  if (n >= 2) {
    std::vector<uint32_t> r = dbgSearch(v, inRange);  // aborts if an assertion fails
    CHECK(r == expectedIn, "debug-build", "results of the build with assertions differ");
    c.nontrivial();
  }
  c.label(n < 3 ? "size 1-2" : n < 100 ? "size 3-99" : "size >=100");
}

FACET("C23", "search", dictSearch, 8, 100000, 400000,
      "random strictly increasing dictionary (arithmetic, random, adjacent floats, denormals, "
      "geometric over the float range; sizes around powers of two), probes equal to, next to and "
      "between elements, infinities; each search routine compared with std::lower_bound, also in a "
      "build with assertions; non-trivial: dictionary of at least two elements");

// ================================================================ C22 UVector

struct MemStats {
  std::map<void *, size_t> live;
  std::string error;
};
template <typename T, bool Propagate, bool PropagateCopy = false>
struct TrackAlloc {
  using value_type = T;
  using propagate_on_container_move_assignment = std::integral_constant<bool, Propagate>;
  using propagate_on_container_swap = std::integral_constant<bool, Propagate>;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, PropagateCopy>;
  using is_always_equal = std::false_type;
  template <typename U>
  struct rebind {
    using other = TrackAlloc<U, Propagate, PropagateCopy>;
  };
  explicit TrackAlloc(MemStats *m = nullptr, int i = 0) : stats(m), id(i) {}
  MemStats *stats;
  int id;
  T *allocate(size_t n) {
    T *p = static_cast<T *>(malloc(n * sizeof(T)));
    memset(static_cast<void *>(p), 0xCD, n * sizeof(T));
    if (stats) stats->live[p] = n * 16 + size_t(id);
    return p;
  }
  void deallocate(T *p, size_t n) {
    if (stats) {
      auto it = stats->live.find(p);
      if (it == stats->live.end())
        stats->error = "deallocation of memory that is not allocated";
      else {
        if (it->second / 16 != n) stats->error = "deallocation with a size different from the allocation";
        if (int(it->second % 16) != id) stats->error = "deallocation with another allocator";
        stats->live.erase(it);
      }
    }
    free(p);
  }
  bool operator==(const TrackAlloc &o) const { return id == o.id; }
  bool operator!=(const TrackAlloc &o) const { return id != o.id; }
};

struct Pod {
  int a;
  double b;
  Pod() = default;
  Pod(int x) : a(x), b(x * 0.5) {}
  Pod(int x, double y) : a(x), b(y) {}
  bool operator==(const Pod &o) const { return a == o.a && b == o.b; }
  bool operator<(const Pod &o) const { return a < o.a; }
  bool operator>(const Pod &o) const { return a > o.a; }
};
std::ostream &operator<<(std::ostream &s, const Pod &p) { return s << p.a; }

template <typename T, typename A>
struct VecTest {
  using V = aocommon::UVector<T, A>;
  using M = std::vector<std::optional<T>>;
  std::vector<V> v;
  std::vector<M> m;
  Ctx &c;
  std::string trace;
  std::function<A(int)> alloc;

  VecTest(Ctx &ctx, std::function<A(int)> al) : c(ctx), alloc(al) {}

  void compare(size_t k) {
    V &x = v[k];
    M &y = m[k];
    const V &cx = x;
    c.subEvaluations++;
    CHECK(x.size() == y.size(), "size", trace << ": vector " << k << " has size " << x.size()
                                              << ", expected " << y.size());
    CHECK(x.capacity() >= x.size(), "capacity", trace << ": capacity below size");
    CHECK(x.empty() == y.empty(), "empty", trace << ": empty() is wrong");
    CHECK(size_t(x.end() - x.begin()) == y.size() && size_t(cx.cend() - cx.cbegin()) == y.size(), "iterators",
          trace << ": iterators do not span size()");
    for (size_t i = 0; i < y.size(); ++i)
      if (y[i]) {
        CHECK(x[i] == *y[i], "element", trace << ": element " << i << " of vector " << k << " is "
                                              << x[i] << ", expected " << *y[i]);
        CHECK(&x.at(i) == &x[i] && &cx.at(i) == &cx[i] && x.data() + i == &x[i], "access", trace << ": at()/data() differ");
      }
    size_t i = y.size();
    for (auto r = x.rbegin(); r != x.rend(); ++r) {
      --i;
      if (y[i]) CHECK(*r == *y[i], "reverse", trace << ": reverse iteration differs at " << i);
    }
    CHECK(i == 0, "reverse", trace << ": reverse iteration has wrong length");
    if (!y.empty()) {
      CHECK(&x.front() == x.data() && &x.back() == x.data() + y.size() - 1, "access", trace << ": front()/back()");
    }
    bool thrown = false;
    try {
      (void)x.at(y.size());
    } catch (std::out_of_range &) {
      thrown = true;
    }
    CHECK(thrown, "at", trace << ": at(size()) did not throw");
  }

  T val() { return T(int(c.below(1000)) + 1); }
  void run(bool sameAlloc) {
    const int nv = 3;
    for (int i = 0; i < nv; ++i) {
      v.emplace_back(alloc(sameAlloc ? 0 : i));
      m.emplace_back();
    }
    const int ops = c.range(1, 40);
    for (int o = 0; o < ops; ++o) {
      const size_t k = c.below(nv), l = c.below(nv);
      V &x = v[k];
      M &y = m[k];
      const size_t n = size_t(c.chance(1, 6) ? c.range(0, 70) : c.range(0, 6));
      size_t pos = y.empty() ? 0 : c.below(uint32_t(y.size() + 1));
      std::vector<T> range;
      for (size_t i = 0; i < n; ++i) range.push_back(T(int(o * 100 + i)));
      std::list<T> lst(range.begin(), range.end());
      const int op = int(c.below(52));
      trace += (trace.empty() ? "" : " ") + std::to_string(op) + "/" + std::to_string(k);
      auto idx = [&](typename V::iterator it) { return size_t(it - x.begin()); };
      size_t got = pos;
      switch (op) {
        case 0: { T t = val(); x.push_back(t); y.push_back(t); } break;
        case 1: { T t = val(); T u = t; x.push_back(std::move(u)); y.push_back(t); } break;
        case 2: if (!y.empty()) { x.pop_back(); y.pop_back(); } break;
        case 3: { x.resize(n); y.resize(n); } break;
        case 4: { T t = val(); x.resize(n, t); y.resize(n, t); } break;
        case 5: x.reserve(n * 2); CHECK(x.capacity() >= n * 2, "reserve", trace << ": capacity after reserve"); break;
        case 6: x.shrink_to_fit(); CHECK(x.capacity() == x.size(), "shrink", trace << ": capacity after shrink_to_fit"); break;
        case 7: x.clear(); y.clear(); break;
        case 8: { T t = val(); got = idx(x.insert(x.cbegin() + pos, t)); y.insert(y.begin() + pos, t); } break;
        case 9: { T t = val(); T u = t; got = idx(x.insert(x.cbegin() + pos, std::move(u))); y.insert(y.begin() + pos, t); } break;
        case 10: { T t = val(); got = idx(x.insert(x.cbegin() + pos, size_t(n), t)); y.insert(y.begin() + pos, n, t); } break;
        case 11: { got = idx(x.insert(x.cbegin() + pos, range.begin(), range.end())); y.insert(y.begin() + pos, range.begin(), range.end()); } break;
        case 12: { got = idx(x.insert(x.cbegin() + pos, lst.begin(), lst.end())); y.insert(y.begin() + pos, lst.begin(), lst.end()); } break;
        case 13: { got = idx(x.insert(x.cbegin() + pos, {T(7), T(8), T(9)})); for (int q : {9, 8, 7}) y.insert(y.begin() + pos, T(q)); } break;
        case 14: { got = idx(x.insert_uninitialized(x.cbegin() + pos, n)); y.insert(y.begin() + pos, n, std::nullopt); } break;
        case 15: if (!y.empty()) { pos %= y.size(); got = idx(x.erase(x.cbegin() + pos)); y.erase(y.begin() + pos); got = got == pos ? pos : got; } break;
        case 16: { size_t q = pos + c.below(uint32_t(y.size() - pos + 1)); got = idx(x.erase(x.cbegin() + pos, x.cbegin() + q)); y.erase(y.begin() + pos, y.begin() + q); } break;
        case 17: { T t = val(); x.assign(size_t(n), t); y.assign(n, t); } break;
        case 18: x.assign(range.begin(), range.end()); y.assign(range.begin(), range.end()); break;
        case 19: x.assign(lst.begin(), lst.end()); y.assign(lst.begin(), lst.end()); break;
        case 20: x.assign({T(4), T(5)}); y.clear(); y.push_back(T(4)); y.push_back(T(5)); break;
        case 21: x.push_back(range.begin(), range.end()); y.insert(y.end(), range.begin(), range.end()); break;
        case 22: x.push_back(lst.begin(), lst.end()); y.insert(y.end(), lst.begin(), lst.end()); break;
        case 23: { T t = val(); x.push_back(size_t(n), t); y.insert(y.end(), n, t); } break;
        case 24: x.push_back({T(1), T(2), T(3)}); for (int q : {1, 2, 3}) y.push_back(T(q)); break;
        case 25: x.push_back_uninitialized(n); y.insert(y.end(), n, std::nullopt); break;
        case 26: { int t = int(c.below(99)); got = idx(x.emplace(x.cbegin() + pos, t)); y.insert(y.begin() + pos, T(t)); } break;
        case 27: { int t = int(c.below(99)); T &r = x.emplace_back(t); y.push_back(T(t)); CHECK(&r == &x.back(), "emplace_back", trace << ": reference"); } break;
        case 28: x = v[l]; y = m[l]; break;
        case 29: if (k != l) { x = std::move(v[l]); y = m[l]; if (v[l].size() == 0) m[l].clear(); v[l].clear(); m[l].clear(); } break;
        case 30: if (k != l && (sameAlloc || A::propagate_on_container_swap::value)) { x.swap(v[l]); std::swap(m[k], m[l]); } break;
        case 31: { V t(x); v.push_back(std::move(t)); m.push_back(y); compare(v.size() - 1); v.pop_back(); m.pop_back(); } break;
        case 32: { V t(std::move(x)); CHECK(t.size() == y.size(), "move", trace << ": moved vector has size " << t.size()); CHECK(x.size() == 0 && x.empty(), "move", trace << ": source of move not empty"); x = std::move(t); } break;
        case 33: { V t(range.begin(), range.end(), x.get_allocator()); x = t; y.assign(range.begin(), range.end()); } break;
        case 34: { T q = val(); V t(size_t(n), q, x.get_allocator()); x = std::move(t); y.assign(n, q); } break;
        case 35: { V t({T(3), T(6)}, x.get_allocator()); if (sameAlloc) { using std::swap; swap(x, t); } else x = t; y.clear(); y.push_back(T(3)); y.push_back(T(6)); } break;
        case 36: {
          bool defined = true;
          for (auto &q : m[k]) defined &= q.has_value();
          for (auto &q : m[l]) defined &= q.has_value();
          if (!defined) break;
          std::vector<T> p, r;
          for (auto &q : m[k]) p.push_back(*q);
          for (auto &q : m[l]) r.push_back(*q);
          const bool eq = p == r, lt = p < r, gt = r < p;
          CHECK((v[k] == v[l]) == eq && (v[k] != v[l]) == !eq && (v[k] < v[l]) == lt &&
                    (v[k] > v[l]) == gt && (v[k] <= v[l]) == !gt && (v[k] >= v[l]) == !lt,
                "comparison", trace << ": comparison operators differ from std::vector");
        } break;
        // calls with two values of the element type, which look like a range
        case 37: case 38: case 39: case 40:
          if constexpr (std::is_integral<T>::value) {
            const T count = T(n), t = c.chance(1, 2) ? T(c.below(4)) : val();
            if (op == 37) { got = idx(x.insert(x.cbegin() + pos, count, t)); y.insert(y.begin() + pos, n, t); }
            if (op == 38) { x.assign(count, t); y.assign(n, t); }
            if (op == 39) { x.push_back(count, t); y.insert(y.end(), n, t); }
            if (op == 40) { V u(count, t, x.get_allocator()); x = u; y.assign(n, t); }
          }
          break;
        case 41: {  // fill all storage
          while (x.size() < x.capacity() && x.size() < 300) { T t = val(); x.push_back(t); y.push_back(t); }
        } break;
        // a moved vector is empty, and can be used again
        case 43: {
          V t(std::move(x));
          CHECK(x.capacity() >= x.size() && x.empty(), "move", trace << ": source of move not empty");
          M ty = y;
          y.clear();
          for (size_t i = 0; i < n; ++i) { T q = val(); x.push_back(q); y.push_back(q); }
          v.push_back(std::move(t)); m.push_back(ty);
          compare(v.size() - 1); compare(k);
          v.pop_back(); m.pop_back();
        } break;
        case 44: {  // copies and moves to a given allocator
          V t(static_cast<const V &>(v[l]), v[k].get_allocator());
          M ty = m[l];
          v.push_back(std::move(t)); m.push_back(ty);
          compare(v.size() - 1);
          v[k] = v.back(); m[k] = ty;
          v.pop_back(); m.pop_back();
        } break;
        case 45: {
          V t(std::move(v[l]), v[k].get_allocator());
          M ty = m[l];
          v[l].clear(); m[l].clear();
          v.push_back(std::move(t)); m.push_back(ty);
          compare(v.size() - 1);
          v.pop_back(); m.pop_back();
        } break;
        // an element of the vector itself
        case 46: if (pos < y.size() && y[pos]) { T t = *y[pos]; x.push_back(x[pos]); y.push_back(t); } break;
        case 47: if (!y.empty()) { size_t e = c.below(uint32_t(y.size())); if (y[e]) { T t = *y[e]; got = idx(x.insert(x.cbegin() + pos, x[e])); y.insert(y.begin() + pos, t); } } break;
        case 48: if (!y.empty()) { size_t e = c.below(uint32_t(y.size())); if (y[e]) { T t = *y[e]; got = idx(x.insert(x.cbegin() + pos, size_t(n), x[e])); y.insert(y.begin() + pos, n, t); } } break;
        case 49: if (pos < y.size() && y[pos]) { T t = *y[pos]; if (n % 2) { x.push_back(size_t(n), x[pos]); y.insert(y.end(), n, t); } else { x.emplace_back(x[pos]); y.push_back(t); } } break;
        case 50: if (pos < y.size() && y[pos]) { T t = *y[pos]; if (n % 2) { x.assign(size_t(n), x[pos]); y.assign(n, t); } else if (n > pos) { x.resize(n, x[pos]); y.resize(n, t); } } break;
        case 51: if (!y.empty()) { size_t e = c.below(uint32_t(y.size())); if (y[e]) { T t = *y[e]; got = idx(x.emplace(x.cbegin() + pos, x[e])); y.insert(y.begin() + pos, t); } } break;
        case 42: {  // the elements of another vector
          if (k == l) break;
          const V &cv = v[l];
          got = idx(x.insert(x.cbegin() + pos, cv.begin(), cv.end()));
          y.insert(y.begin() + pos, m[l].begin(), m[l].end());
          if (y.size() > 400) { x.resize(100); y.resize(100); }
        } break;
      }
      CHECK(got == pos, "return-value", trace << ": returned position " << got << ", expected " << pos);
      for (int q = 0; q < nv; ++q) compare(size_t(q));
    }
    c.note(" ops ").note(trace);
    if (ops >= 3) c.nontrivial();
  }
};

template <typename T, bool P, bool PC = false>
void trackRun(Ctx &c, bool sameAlloc) {
  MemStats stats;
  {
    using A = TrackAlloc<T, P, PC>;
    VecTest<T, A> t(c, [&](int i) { return A(&stats, i); });
    t.run(sameAlloc);
    CHECK(stats.error.empty(), "allocator", t.trace << ": " << stats.error);
  }
  CHECK(stats.error.empty(), "allocator", stats.error);
  CHECK(stats.live.empty(), "leak", stats.live.size() << " allocations were not freed");
}
template <typename T>
struct StdAlloc : std::allocator<T> {
  using propagate_on_container_swap = std::true_type;
};

void vectorModel(Ctx &c) {
  const int kind = int(c.below(8));
  c.note("variant ").note(kind);
  switch (kind) {
    case 0: trackRun<int, true>(c, true); break;
    case 1: trackRun<Pod, true>(c, true); break;
    case 2: trackRun<Pod, true>(c, false); break;
    case 3: trackRun<Pod, false>(c, false); break;
    case 4: trackRun<int, false>(c, true); break;
    case 5: trackRun<int, true, true>(c, false); break;
    case 6: trackRun<float, false, true>(c, false); break;
    default: {
      using A = std::allocator<double>;
      struct B : A {
        using propagate_on_container_swap = std::false_type;
      };
      VecTest<float, TrackAlloc<float, true>> t(c, [&](int) { return TrackAlloc<float, true>(nullptr, 0); });
      t.run(true);
    }
  }
}

// the default allocator, all elements constructed through the plain API
void vectorDefault(Ctx &c) {
  using V = aocommon::UVector<unsigned>;
  V x(size_t(c.below(5)), 3u);
  std::vector<unsigned> y(x.begin(), x.end());
  V other;
  std::vector<unsigned> otherY;
  const int ops = c.range(1, 30);
  for (int o = 0; o < ops; ++o) {
    const unsigned a = c.below(60), b = c.below(1000);
    switch (c.below(9)) {
      case 0: x.assign(size_t(a), b); y.assign(a, b); break;
      case 1: { V t(size_t(a), b); x = t; y.assign(a, b); break; }
      case 2: other = x; otherY = y; break;
      case 3: x = other; y = otherY; break;
      case 4: std::swap(x, other); std::swap(y, otherY); break;
      case 5: { V t(x); t.push_back(b); x = std::move(t); y.push_back(b); break; }
      case 6: x.resize(a, b); y.resize(a, b); break;
      case 7: { const size_t old = y.size(); V t(size_t(a) + 1); t[a] = b; x = t; y.assign(a + 1, 0); y[a] = b; for (unsigned i = 0; i < a; ++i) x[i] = 0; (void)old; break; }
      default: { V t(std::move(x)); x = V(); x = t; break; }
    }
    c.subEvaluations++;
    CHECK(x.size() == y.size() && std::equal(y.begin(), y.end(), x.begin()), "default-allocator",
          "contents differ from std::vector after operation " << o);
  }
  c.note(ops).note(" operations");
  if (ops > 2) c.nontrivial();
}

FACET("C22", "model", vectorModel, 300, 120000, 600000,
      "1-40 random operations on three vectors (52 kinds of operation) with a std::vector model, "
      "for two element types and stateful allocators that check every deallocation; non-trivial: "
      "at least three operations");
FACET("C22", "default_allocator", vectorDefault, 120, 30000, 100000,
      "random assignments, copies, moves, swaps of UVector<unsigned> against std::vector; "
      "non-trivial: more than two operations");

// ============================================================== C25 weight quantizer
template <typename T>
void weightQuantizer(Ctx &c) {
  const unsigned q = c.chance(1, 2) ? 1u << c.pick({1, 2, 3, 4, 6, 8, 10, 12, 16}) : 2 + c.below(c.chance(1, 2) ? 20 : 65535);
  const size_t n = size_t(c.sized(1, 12, 600));
  const int kind = int(c.below(6));
  Expand x(c.raw());
  const double scale = std::pow(10.0, c.pick({0, 0, 0, 3, -6, 12, -25, 25}));
  std::vector<T> w(n);
  for (T &v : w)
    v = T(scale * (kind == 0   ? x.unit()
                   : kind == 1 ? double(x.below(q))  // values near levels and boundaries
                   : kind == 2 ? double(x.below(2 * q)) * 0.5
                   : kind == 3 ? (x.below(2) ? 0.0 : x.unit())
                   : kind == 4 ? std::pow(10.0, 8 * x.unit() - 8)
                               : 0.0));
  c.note(q).note(" levels, ").note(n).note(" values of kind ").note(kind).note(" x ").note(scale).note(sizeof(T) == 4 ? ", float" : ", double");
  const std::vector<T> before = w;
  const dyscostman::WeightEncoder<T> e(q);
  std::vector<unsigned> sym(n, 0xFFFFFFFFu);
  T max = T(-1);
  e.Encode(max, sym, w);
  CHECK(w == before, "input", "the input was changed");
  CHECK(max == *std::max_element(w.begin(), w.end()), "maximum", "the scale value " << max << " is not the largest value");
  std::vector<T> got(n, T(-1));
  const dyscostman::WeightEncoder<T> d(q);  // (decoding does not depend on what was encoded)
  d.Decode(got, max, sym);
  const double step = double(max) / (q - 1.0), slack = 3e-7 * q;
  std::vector<size_t> order(n);
  for (size_t i = 0; i < n; ++i) order[i] = i;
  std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return w[a] < w[b]; });
  for (size_t k = 0; k < n; ++k) {
    const size_t i = order[k];
    c.subEvaluations++;
    CHECK(sym[i] < q, "symbol-range", "symbol " << sym[i] << " of " << q);
    CHECK(got[i] >= 0 && std::fabs(double(got[i]) - double(w[i])) <= step * (0.5 + slack), "half-step",
          "value " << w[i] << " decoded as " << got[i] << "; step is " << step);
    CHECK(std::fabs(double(got[i]) - sym[i] * step) <= 3e-7 * double(max), "level", "symbol " << sym[i] << " decoded as " << got[i] << "; step is " << step);
    if (w[i] == 0) CHECK(got[i] == 0, "zero", "zero decoded as " << got[i]);
    if (w[i] == max) CHECK(std::fabs(double(got[i]) - double(max)) <= 3e-7 * double(max), "maximum", "largest value " << max << " decoded as " << got[i]);
    if (k) CHECK(sym[i] >= sym[order[k - 1]], "order", "a larger value has a smaller symbol");
  }
  if (max > 0 && n > 1) c.nontrivial();
}
FACET("C25", "float", weightQuantizer<float>, 20, 60000, 800000,
      "2..65536 levels, 1-600 non-negative values: uniform, on and halfway levels, with zeros, "
      "logarithmic, all zero, scaled by 1e-25..1e25; non-trivial: at least two values, not all zero");
FACET("C25", "double", weightQuantizer<double>, 20, 60000, 800000,
      "the same in double precision; non-trivial: at least two values, not all zero");

}  // namespace
