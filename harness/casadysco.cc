// Helper program: reads and writes tables with the Dysco storage manager that
// is part of the installed casacore (a released version of the same format).
//   casadysco dump TABLE FILE     values of all Dysco columns, as floats
//   casadysco fill TABLE SPEC     add and write the columns that SPEC describes
#include <casacore/casa/Containers/Record.h>
#include <casacore/tables/DataMan/DataManager.h>
#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/Table.h>
#include <casacore/tables/Tables/TableDesc.h>

#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <vector>

using namespace casacore;

int main(int argc, char **argv) try {
  if (argc != 4) return 2;
  const std::string what = argv[1];
  if (what == "dump") {
    Table t{String(argv[2])};
    std::ofstream out(argv[3], std::ios::binary);
    const Vector<String> names = t.tableDesc().columnNames();
    for (size_t i = 0; i != names.nelements(); ++i) {
      const ColumnDesc &d = t.tableDesc().columnDesc(names[i]);
      if (d.isScalar()) continue;
      for (size_t r = 0; r != t.nrow(); ++r) {
        if (d.dataType() == TpFloat) {
          const Array<float> a = ArrayColumn<float>(t, names[i])(r);
          out.write(reinterpret_cast<const char *>(a.data()), ssize_t(a.nelements() * sizeof(float)));
        } else {
          const Array<Complex> a = ArrayColumn<Complex>(t, names[i])(r);
          out.write(reinterpret_cast<const char *>(a.data()), ssize_t(a.nelements() * sizeof(Complex)));
        }
      }
    }
    out.close();
    return out ? 0 : 4;
  }
  // fill: text lines, then binary values (per row, all columns)
  std::ifstream in(argv[3], std::ios::binary);
  std::string manager, dist, norm;
  int dataBits, weightBits, nCols, nPol, nChan;
  double nu, trunc;
  std::getline(in, manager);
  in >> dataBits >> weightBits >> dist >> norm >> nu >> trunc >> nPol >> nChan >> nCols;
  std::vector<std::string> names(nCols);
  std::vector<int> weight(nCols);
  for (int i = 0; i != nCols; ++i) in >> names[i] >> weight[i];
  in.get();
  Table t(String(argv[2]), Table::Update);
  Record spec;
  spec.define("dataBitCount", dataBits);
  spec.define("weightBitCount", weightBits);
  spec.define("distribution", String(dist));
  spec.define("normalization", String(norm));
  spec.define("studentTNu", nu);
  spec.define("distributionTruncation", trunc);
  std::unique_ptr<DataManager> m(DataManager::getCtor("DyscoStMan")(String(manager), spec));
  const IPosition shape(2, nPol, nChan);
  TableDesc td;
  for (int i = 0; i != nCols; ++i) {
    const int opt = ColumnDesc::Direct | ColumnDesc::FixedShape;
    if (weight[i])
      td.addColumn(ArrayColumnDesc<float>(names[i], "", "DyscoStMan", manager, shape, opt));
    else
      td.addColumn(ArrayColumnDesc<Complex>(names[i], "", "DyscoStMan", manager, shape, opt));
  }
  t.addColumn(td, *m);
  for (size_t r = 0; r != t.nrow(); ++r)
    for (int i = 0; i != nCols; ++i) {
      if (weight[i]) {
        Array<float> a(shape);
        in.read(reinterpret_cast<char *>(a.data()), ssize_t(a.nelements() * sizeof(float)));
        ArrayColumn<float>(t, names[i]).put(r, a);
      } else {
        Array<Complex> a(shape);
        in.read(reinterpret_cast<char *>(a.data()), ssize_t(a.nelements() * sizeof(Complex)));
        ArrayColumn<Complex>(t, names[i]).put(r, a);
      }
    }
  return in ? 0 : 4;
} catch (std::exception &e) {
  std::cerr << e.what() << '\n';
  return 3;
}
