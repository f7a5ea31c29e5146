// Complete tables of generated values: what is written, how it is written and
// how it is read back.
#ifndef TABLES_H
#define TABLES_H

#include "kit.h"

namespace kit {

struct Data {
  Config k;
  Layout l;
  std::vector<ColumnSpec> cols;  // in the order of the table description
  size_t nRows = 0;              // rows of the table (the last block may be incomplete)
  std::vector<Vis> vis;          // per column; empty for weights
  std::vector<Weights> w;        // per column; empty for visibilities
  bool complete() const { return nRows % l.rowsPerBlock() == 0; }
  size_t nBlocks() const { return (nRows + l.rowsPerBlock() - 1) / l.rowsPerBlock(); }
  std::string text() const;
};

struct DataOpts {
  LayoutOpts layout;
  VisOpts vis;
  int maxData = 2;
  bool weight = true;       // a weight column is possible
  bool needData = true;     // at least one data column
  bool incomplete = true;   // the last block may miss rows
  int maxVisPerCase = 3000;
  DataOpts() {
    layout.maxRows = 700;
    layout.minTime = 1;
    layout.maxTime = 20;
    layout.wide = 80;
  }
};
Data genData(pbt::Ctx &c, const DataOpts &o = DataOpts());
// only the shape: settings, layout and columns, without values
Data genShape(pbt::Ctx &c, const DataOpts &o = DataOpts());
void genColumn(pbt::Ctx &c, Data &d, size_t column, const VisOpts &o = VisOpts());

// ways in which a table can be written completely
constexpr int kWriteModes = 6;
const char *writeMode(int mode);
void writeTable(const std::string &path, const Data &d, int mode, bool grow);
void putCell(casacore::Table &t, const Data &d, size_t column, size_t row);
// exact value as returned by the table; weights as (w,0)
std::vector<cf> readCell(casacore::Table &t, const Data &d, size_t column, size_t row);
// all values of a column: rows x (ch*pol+p)
Vis readColumn(casacore::Table &t, const Data &d, size_t column);
bool identical(const std::vector<cf> &a, const std::vector<cf> &b);

// Checks every finite component of a visibility column against the adjacent
// levels; factors come from the file, decoded independently.
void checkColumnAccuracy(pbt::Ctx &c, const Data &d, size_t column, const ref::File &f,
                         const Vis &got, const std::string &when, size_t firstRow = 0,
                         size_t endRow = SIZE_MAX);
void checkWeightColumn(pbt::Ctx &c, const Data &d, size_t column, const Vis &got,
                       const std::string &when, size_t firstRow = 0, size_t endRow = SIZE_MAX);

}  // namespace kit

#endif
