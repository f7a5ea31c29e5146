// Independent reference implementation of the Dysco v1.0 conventions: level
// tables, bit order, file layout, scale factors. Written from the format
// description (header.h documentation, paper arXiv:1609.02019), sharing no code
// with /repo.
#ifndef REF_H
#define REF_H

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>

#include <gsl/gsl_cdf.h>

namespace ref {

enum Dist { Gaussian = 0, Uniform = 1, StudentT = 2, TruncGaussian = 3 };
enum Norm { AF = 0, RF = 1, Row = 2 };

// ------------------------------------------------------------ level tables
// quantile of Student's t by inverting the tail function; gsl_cdf_tdist_Pinv()
// aborts for some nu below one
inline double tQuantile(double q, double nu) {
  if (nu >= 1.0) return gsl_cdf_tdist_Pinv(q, nu);
  if (q == 0.5) return 0.0;
  const double tail = q < 0.5 ? q : 1.0 - q;
  double a = -60, b = 200;  // log of the quantile
  for (int i = 0; i < 70; ++i) {
    const double m = 0.5 * (a + b);
    if (gsl_cdf_tdist_Q(std::exp(m), nu) > tail)
      a = m;
    else
      b = m;
  }
  const double x = std::exp(0.5 * (a + b));
  return q < 0.5 ? -x : x;
}
// value of quantile q of the distribution
inline double quantile(Dist d, double q, double trunc, double nu) {
  switch (d) {
    case Gaussian:
      return std::sqrt(3.0) * gsl_cdf_ugaussian_Pinv(q);
    case Uniform:
      return std::sqrt(3.0) * (2.0 * q - 1.0);
    case StudentT:
      return tQuantile(q, nu);
    case TruncGaussian: {
      const double lo = gsl_cdf_ugaussian_P(-trunc);
      const double c = q * (1.0 - 2.0 * lo) + lo;
      // use the symmetric tail for accuracy
      return c > 0.5 ? -gsl_cdf_ugaussian_Pinv(1.0 - c) : gsl_cdf_ugaussian_Pinv(c);
    }
  }
  return 0;
}
// 2^bits - 1 levels
inline std::vector<double> levels(Dist d, unsigned bits, double trunc, double nu) {
  const size_t n = (size_t(1) << bits) - 1;
  std::vector<double> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = quantile(d, (double(i) + 0.5) / double(n), trunc, nu);
  return v;
}
inline double boundary(Dist d, unsigned bits, size_t i, double trunc, double nu) {
  const size_t n = (size_t(1) << bits) - 1;
  return quantile(d, double(i + 1) / double(n), trunc, nu);
}

// ------------------------------------------------------------ bit streams
inline size_t packedSize(size_t n, unsigned bits) { return (n * bits + 7) / 8; }
inline uint32_t getSymbol(const uint8_t *p, size_t i, unsigned bits) {
  uint32_t v = 0;
  for (unsigned b = 0; b < bits; ++b) {
    const size_t bit = i * bits + b;
    v |= uint32_t((p[bit / 8] >> (bit % 8)) & 1u) << b;
  }
  return v;
}
inline void putSymbol(uint8_t *p, size_t i, unsigned bits, uint32_t v) {
  for (unsigned b = 0; b < bits; ++b) {
    const size_t bit = i * bits + b;
    const uint8_t m = uint8_t(1u << (bit % 8));
    if ((v >> b) & 1u)
      p[bit / 8] |= m;
    else
      p[bit / 8] &= uint8_t(~m);
  }
}

// ------------------------------------------------------------ file format
struct ColumnInfo {
  uint32_t headerSize = 0, blockSize = 0, antennaCount = 0;
};
struct File {
  uint32_t headerSize = 0, columnHeaderOffset = 0, columnCount = 0;
  std::string name;
  uint32_t rowsPerBlock = 0, antennaCount = 0, blockSize = 0;
  uint16_t major = 0, minor = 0;
  uint8_t dataBits = 0, weightBits = 0, dist = 0, norm = 0;
  double nu = 0, trunc = 0;
  std::vector<ColumnInfo> cols;
  std::vector<uint8_t> bytes;  // whole file

  size_t nBlocks() const {
    return blockSize == 0 || bytes.size() <= headerSize
               ? 0
               : (bytes.size() - headerSize + blockSize - 1) / blockSize;
  }
  size_t columnOffset(size_t col) const {
    size_t o = 0;
    for (size_t i = 0; i < col; ++i) o += cols[i].blockSize;
    return o;
  }
};

inline std::vector<uint8_t> slurp(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  if (!f) throw std::runtime_error("cannot open " + path);
  return std::vector<uint8_t>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
inline void spew(const std::string &path, const std::vector<uint8_t> &b) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(reinterpret_cast<const char *>(b.data()), std::streamsize(b.size()));
}

class Reader {
 public:
  Reader(const std::vector<uint8_t> &b, size_t p) : b_(b), p_(p) {}
  template <typename T>
  T le() {
    if (p_ + sizeof(T) > b_.size()) throw std::runtime_error("short file");
    uint64_t v = 0;
    for (size_t i = 0; i < sizeof(T); ++i) v |= uint64_t(b_[p_ + i]) << (8 * i);
    p_ += sizeof(T);
    T r;
    memcpy(&r, &v, sizeof(T));
    return r;
  }
  std::string str(size_t n) {
    if (p_ + n > b_.size()) throw std::runtime_error("short file");
    std::string s(reinterpret_cast<const char *>(&b_[p_]), n);
    p_ += n;
    return s;
  }
  size_t pos() const { return p_; }

 private:
  const std::vector<uint8_t> &b_;
  size_t p_;
};

inline File parse(const std::vector<uint8_t> &bytes) {
  File f;
  f.bytes = bytes;
  Reader r(f.bytes, 0);
  f.headerSize = r.le<uint32_t>();
  f.columnHeaderOffset = r.le<uint32_t>();
  f.columnCount = r.le<uint32_t>();
  const uint32_t n = r.le<uint32_t>();
  f.name = r.str(n);
  f.rowsPerBlock = r.le<uint32_t>();
  f.antennaCount = r.le<uint32_t>();
  f.blockSize = r.le<uint32_t>();
  f.major = r.le<uint16_t>();
  f.minor = r.le<uint16_t>();
  f.dataBits = r.le<uint8_t>();
  f.weightBits = r.le<uint8_t>();
  f.dist = r.le<uint8_t>();
  f.norm = r.le<uint8_t>();
  f.nu = r.le<double>();
  f.trunc = r.le<double>();
  if (r.pos() != f.columnHeaderOffset) throw std::runtime_error("column header offset mismatch");
  size_t off = f.columnHeaderOffset;
  for (uint32_t i = 0; i < f.columnCount; ++i) {
    Reader c(f.bytes, off);
    ColumnInfo ci;
    ci.headerSize = c.le<uint32_t>();
    ci.blockSize = c.le<uint32_t>();
    ci.antennaCount = c.le<uint32_t>();
    f.cols.push_back(ci);
    off += ci.headerSize;
  }
  if (off > f.headerSize) throw std::runtime_error("header size mismatch");
  return f;
}

class Writer {
 public:
  template <typename T>
  void le(T v) {
    uint64_t u = 0;
    memcpy(&u, &v, sizeof(T));
    for (size_t i = 0; i < sizeof(T); ++i) out.push_back(uint8_t(u >> (8 * i)));
  }
  void str(const std::string &s) { out.insert(out.end(), s.begin(), s.end()); }
  std::vector<uint8_t> out;
};
// header bytes for a file (headerSize etc. computed)
// (slack: unused bytes per column header; the writer in /repo leaves 12)
inline std::vector<uint8_t> headerBytes(File &f, uint32_t slack = 12, uint8_t filler = 0) {
  f.columnCount = uint32_t(f.cols.size());
  f.columnHeaderOffset = uint32_t(7 * 4 + f.name.size() + 2 * 2 + 4 + 16);
  f.headerSize = f.columnHeaderOffset + f.columnCount * (12 + slack);
  f.blockSize = 0;
  for (auto &c : f.cols) f.blockSize += c.blockSize;
  Writer w;
  w.le(f.headerSize);
  w.le(f.columnHeaderOffset);
  w.le(f.columnCount);
  w.le(uint32_t(f.name.size()));
  w.str(f.name);
  w.le(f.rowsPerBlock);
  w.le(f.antennaCount);
  w.le(f.blockSize);
  w.le(f.major);
  w.le(f.minor);
  w.le(f.dataBits);
  w.le(f.weightBits);
  w.le(f.dist);
  w.le(f.norm);
  w.le(f.nu);
  w.le(f.trunc);
  for (auto &c : f.cols) {
    w.le(uint32_t(12));
    w.le(c.blockSize);
    w.le(c.antennaCount);
  }
  w.out.resize(f.headerSize, filler);
  return w.out;
}

inline size_t dataMetaCount(Norm n, size_t rows, size_t pol, size_t ch, size_t ant) {
  switch (n) {
    case AF: return pol * (ch + ant);
    case RF: return pol * (ch + rows);
    case Row: return rows;
  }
  return 0;
}
inline size_t dataBlockSize(Norm n, unsigned bits, size_t rows, size_t pol, size_t ch, size_t ant) {
  return 4 * dataMetaCount(n, rows, pol, ch, ant) + packedSize(rows * pol * ch * 2, bits);
}
inline size_t weightBlockSize(unsigned bits, size_t rows, size_t ch) {
  return 4 + packedSize(rows * ch, bits);
}
inline float getFloat(const uint8_t *p) {
  float f;
  memcpy(&f, p, 4);
  return f;
}

// scale factor of (row, channel, pol) given the meta floats of a block
inline double factor(Norm n, const std::vector<float> &meta, size_t rows, size_t pol, size_t ch,
                     size_t ant, size_t row, size_t c, size_t p, size_t a1, size_t a2) {
  (void)rows;
  switch (n) {
    case AF:
      return double(meta[c * pol + p]) * double(meta[pol * ch + p * ant + a1]) *
             double(meta[pol * ch + p * ant + a2]);
    case RF:
      return double(meta[c * pol + p]) * double(meta[pol * ch + row * pol + p]);
    case Row:
      return double(meta[row]);
  }
  return 0;
}

struct DataBlock {
  std::vector<float> meta;
  std::vector<uint32_t> symbols;  // row, ch, pol, re/im
};
inline DataBlock readBlock(const uint8_t *p, size_t metaCount, size_t symbols, unsigned bits) {
  DataBlock b;
  b.meta.resize(metaCount);
  for (size_t i = 0; i < metaCount; ++i) b.meta[i] = getFloat(p + 4 * i);
  b.symbols.resize(symbols);
  for (size_t i = 0; i < symbols; ++i) b.symbols[i] = getSymbol(p + 4 * metaCount, i, bits);
  return b;
}
inline double levelValue(const std::vector<double> &lv, uint32_t sym) {
  return sym < lv.size() ? lv[sym] : std::numeric_limits<double>::quiet_NaN();
}

}  // namespace ref

#endif
