// Helpers to create, write and read measurement-set-like tables whose columns
// are stored by the Dysco storage manager of /repo.
#ifndef KIT_H
#define KIT_H

#include "pbt.h"
#include "ref.h"

#include "dyscostman.h"

#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/ScaColDesc.h>
#include <casacore/tables/Tables/ScalarColumn.h>
#include <casacore/tables/Tables/SetupNewTab.h>
#include <casacore/tables/Tables/Table.h>
#include <casacore/tables/Tables/TableDesc.h>
#include <casacore/tables/DataMan/StandardStMan.h>

#include <complex>
#include <filesystem>
#include <iostream>
#include <memory>
#include <string>
#include <utility>
#include <vector>

void register_dyscostman();

namespace kit {

using cf = std::complex<float>;
using casacore::IPosition;

struct Config {
  unsigned dataBits = 8, weightBits = 12;
  ref::Dist dist = ref::TruncGaussian;
  double trunc = 2.5, nu = 1.0;
  ref::Norm norm = ref::AF;
  bool staticSeed = false;
  std::string name = "DyscoStMan";
  std::string text() const;
  std::vector<double> levels() const { return ref::levels(dist, dataBits, trunc, nu); }
};

struct Layout {
  size_t nPol = 1, nChan = 1, nAnt = 2, nTime = 2;
  std::vector<std::pair<int, int>> baselines;
  std::vector<double> times;       // per block
  std::vector<int> fields, ddids;  // per block
  std::string text() const;
  size_t rowsPerBlock() const { return baselines.size(); }
  size_t nRows() const { return baselines.size() * nTime; }
  size_t visPerRow() const { return nPol * nChan; }
  std::pair<int, int> ant(size_t row) const { return baselines[row % baselines.size()]; }
  size_t maxAnt() const {
    int m = 0;
    for (auto &b : baselines) m = std::max(m, std::max(b.first, b.second));
    return size_t(m);
  }
};

// ---- generators ----
Config genConfig(pbt::Ctx &c);
struct LayoutOpts {
  int maxRows = 5000;    // rough bound on rows*vis
  int minTime = 2, maxTime = 6;
  bool autos = true;
  bool big = true;
  int wideRows = 66000;  // largest number of rows of those
  int wide = 0;          // one in this many layouts has a dimension that needs 9..17 bits
};
Layout genLayout(pbt::Ctx &c, const LayoutOpts &o = LayoutOpts());

// Visibility data: rows x (ch*pol+p)
using Vis = std::vector<std::vector<cf>>;
using Weights = std::vector<std::vector<float>>;
struct VisOpts {
  bool nonFinite = true;
  bool allowZeroRows = true;
  double gainRange = 100.0;  // per antenna gain spread
};
Vis genVis(pbt::Ctx &c, const Layout &l, const VisOpts &o = VisOpts());
Weights genWeights(pbt::Ctx &c, const Layout &l);

// ---- table operations ----
std::unique_ptr<dyscostman::DyscoStMan> makeStMan(const Config &c);
struct ColumnSpec {
  std::string name;
  bool weight;
};
// creates a new table with nRows rows, meta columns filled in
casacore::Table createTable(const std::string &path, const Layout &l, const Config &c,
                            const std::vector<ColumnSpec> &cols, size_t nRows,
                            bool dyscoFirst = false);
void fillMeta(casacore::Table &t, const Layout &l, size_t firstRow, size_t nRows);
void putVis(casacore::Table &t, const std::string &col, size_t row, const Layout &l,
            const std::vector<cf> &v);
std::vector<cf> getVis(casacore::Table &t, const std::string &col, size_t row, const Layout &l);
void putWeight(casacore::Table &t, const std::string &col, size_t row, const Layout &l,
               const std::vector<float> &v);
std::vector<float> getWeight(casacore::Table &t, const std::string &col, size_t row,
                             const Layout &l);
// path of the Dysco data file inside a table directory
std::string dyscoFile(const std::string &tablePath, const std::string *managerName = nullptr);
std::vector<std::string> dyscoFiles(const std::string &tablePath);

// ---- independent decoding of a file ----
// Decoded column values of a block, straight from the bytes of the file.
struct BlockValues {
  std::vector<std::vector<double>> re, im, factor;  // row x (ch*pol+p); weights: re only
};
// columns: kinds in file order; the settings come from the file's header
BlockValues decodeBlock(const ref::File &f, const Layout &l, const std::vector<ColumnSpec> &cols,
                        size_t column, size_t block);
size_t columnSize(const ref::File &f, const Layout &l, const ColumnSpec &col);
// decoded value as read through the table agrees with the independent decode
bool sameValue(double expected, double got, double factor);

// Oracle: decoded visibility must be one of the two representable values that
// bracket the original. Returns empty string if fine.
struct StepStats {
  uint64_t compared = 0, nonfinite = 0, skipped = 0;
};
// levels: ascending level table; factor: scale factor; x original; y decoded
std::string checkStep(const std::vector<double> &lv, double factor, double x, double y);

class Silence {  // swallow std::cout chatter of the code under test
 public:
  Silence() : old_(std::cout.rdbuf(nullptr)) {}
  ~Silence() { std::cout.rdbuf(old_); }

 private:
  std::streambuf *old_;
};

}  // namespace kit

#endif
