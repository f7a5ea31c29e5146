// Properties about the programs dscompress (C20) and decompress (C21), which
// are run as processes on generated measurement sets.
#include "tables.h"

#include <casacore/tables/DataMan/IncrementalStMan.h>
#include <casacore/tables/DataMan/TiledColumnStMan.h>
#include <casacore/tables/DataMan/TiledShapeStMan.h>
#include <casacore/tables/Tables/TableRecord.h>
#include <casacore/tables/Tables/TableColumn.h>

#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using namespace kit;
using casacore::Array;
using casacore::ArrayColumn;
using casacore::ArrayColumnDesc;
using casacore::Bool;
using casacore::ColumnDesc;
using casacore::Complex;
using casacore::Double;
using casacore::Float;
using casacore::Int;
using casacore::IPosition;
using casacore::Record;
using casacore::ScalarColumn;
using casacore::ScalarColumnDesc;
using casacore::SetupNewTable;
using casacore::String;
using casacore::Table;
using casacore::TableColumn;
using casacore::TableDesc;
namespace fs = std::filesystem;

namespace {

// a case runs programs that read and write a whole set several times
#undef TFACET
#define TFACET(...)                                             \
  static ::pbt::Register PBT_CAT(reg_, __COUNTER__)([] {        \
    ::pbt::Facet f{__VA_ARGS__};                                \
    f.schedule = true;                                          \
    f.hang = 120;                                               \
    return f;                                                   \
  }())

const float kNaN = std::numeric_limits<float>::quiet_NaN();

// ------------------------------------------------------------ running a program
struct Outcome {
  int exit = -1, signal = 0;
  std::string log;
  bool ok() const { return signal == 0 && exit == 0; }
  // an exception that ends the program, or an error code
  bool refused() const {
    if (signal == SIGABRT) return log.find("terminate called after throwing") != std::string::npos;
    return signal == 0 && exit != 0 && exit != 99;
  }
  std::string text() const {
    std::ostringstream s;
    if (signal)
      s << "signal " << signal;
    else
      s << "exit status " << exit;
    const size_t e = log.find("ERROR: ");
    s << ", output: ..." << (e != std::string::npos ? log.substr(e, 1500) : log.substr(log.size() - std::min<size_t>(log.size(), 500)));
    return s.str();
  }
};

Outcome runTool(Ctx &c, const char *tool, const std::vector<std::string> &args, const std::string &cwd) {
  std::string var = std::string("VP_BIN_") + tool;
  const char *bin = getenv(var.c_str());
  CHECK(bin != nullptr, "setup", "no program " << var);
  const std::string log = c.scratch() + "/tool.log";
  std::vector<std::string> a = args;
  // (nothing outside the scratch directory is named in the arguments)
  std::vector<char *> argv{const_cast<char *>(tool)};
  for (auto &x : a) argv.push_back(x.data());
  argv.push_back(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    const int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    if (chdir(cwd.c_str())) _exit(97);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:handle_abort=0", 1);
    setenv("UBSAN_OPTIONS", "halt_on_error=1:exitcode=99:print_stacktrace=1", 1);
    execv(bin, argv.data());
    _exit(98);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  if (WIFEXITED(st)) o.exit = WEXITSTATUS(st);
  if (WIFSIGNALED(st)) o.signal = WTERMSIG(st);
  std::ifstream i(log);
  o.log.assign((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
  CHECK(o.exit != 97 && o.exit != 98, "setup", "could not run " << bin);
  return o;
}

// ------------------------------------------------------------ cells as bytes
template <typename T>
std::string bytesOf(const Array<T> &a) {
  std::ostringstream s;
  s << a.shape() << ':';
  const std::vector<T> v(a.begin(), a.end());
  s << std::string(reinterpret_cast<const char *>(v.data()), v.size() * sizeof(T));
  return s.str();
}
template <>
std::string bytesOf(const Array<Bool> &a) {
  std::ostringstream s;
  s << a.shape() << ':';
  for (bool b : a) s << (b ? '1' : '0');
  return s.str();
}
template <>
std::string bytesOf(const Array<String> &a) {
  std::ostringstream s;
  s << a.shape() << ':';
  for (const String &x : a) s << x.size() << ',' << x;
  return s.str();
}
template <typename T>
std::string cell(const Table &t, const std::string &col, size_t row) {
  const bool scalar = t.tableDesc().columnDesc(col).isScalar();
  if (scalar) return bytesOf(Array<T>(casacore::Vector<T>(1, ScalarColumn<T>(t, col)(row))));
  ArrayColumn<T> c(t, col);
  if (!c.isDefined(row)) return "undefined";
  return bytesOf(c(row));
}
std::string anyCell(const Table &t, const std::string &col, size_t row) {
  switch (t.tableDesc().columnDesc(col).dataType()) {
    case casacore::TpBool: return cell<Bool>(t, col, row);
    case casacore::TpInt: return cell<Int>(t, col, row);
    case casacore::TpFloat: return cell<Float>(t, col, row);
    case casacore::TpDouble: return cell<Double>(t, col, row);
    case casacore::TpComplex: return cell<Complex>(t, col, row);
    case casacore::TpString: return cell<String>(t, col, row);
    default: throw std::runtime_error("type of column " + col);
  }
}
using Cells = std::vector<std::string>;
Cells cells(const Table &t, const std::string &col) {
  Cells r;
  for (size_t i = 0; i < t.nrow(); ++i) r.push_back(anyCell(t, col, i));
  return r;
}
std::string keywordText(const casacore::TableRecord &k) {
  std::ostringstream s;
  for (casacore::uInt i = 0; i < k.nfields(); ++i) {
    s << k.name(i) << '=';
    switch (k.dataType(i)) {
      case casacore::TpTable: {
        const Table sub = k.asTable(i);
        s << "table with " << sub.nrow() << " rows:";
        for (size_t r = 0; r < sub.nrow(); ++r) s << ScalarColumn<String>(sub, "NAME")(r) << ',';
        break;
      }
      case casacore::TpString: s << k.asString(i); break;
      case casacore::TpInt: s << k.asInt(i); break;
      case casacore::TpDouble: s << k.asDouble(i); break;
      default: s << "?" << k.dataType(i);
    }
    s << "; ";
  }
  return s.str();
}

// everything that a user can see in the set
struct Snapshot {
  size_t rows = 0;
  std::map<std::string, Cells> columns;
  std::map<std::string, std::string> keywords;
  std::map<std::string, std::string> types;
  std::string tableKeywords, info;
};
Snapshot snap(const std::string &path) {
  Table t(path, Table::Old);
  Snapshot s;
  s.rows = t.nrow();
  for (const String &n : t.tableDesc().columnNames()) {
    s.columns[n] = cells(t, n);
    s.keywords[n] = keywordText(TableColumn(t, n).keywordSet());
    const ColumnDesc &d = t.tableDesc().columnDesc(n);
    s.types[n] = std::string(d.isScalar() ? "scalar " : "array ") + std::to_string(int(d.dataType()));
  }
  s.tableKeywords = keywordText(t.keywordSet());
  s.info = t.tableInfo().type() + "/" + t.tableInfo().subType() + "/" + t.tableInfo().readme();
  return s;
}
std::string names(const Snapshot &s) {
  std::string r;
  for (auto &x : s.columns) r += x.first + ' ';
  return r;
}
// `except`: columns of which the values are compared elsewhere
void checkSame(Ctx &c, const Snapshot &a, const Snapshot &b, const std::set<std::string> &except, const std::string &when) {
  CHECK(a.rows == b.rows, "row-count", when << ": " << b.rows << " rows, were " << a.rows);
  CHECK(names(a) == names(b), "columns", when << ": columns are " << names(b) << ", were " << names(a));
  for (auto &x : a.columns) {
    const std::string &n = x.first;
    CHECK(a.types.at(n) == b.types.at(n), "type", when << ": type of " << n << " changed");
    CHECK(a.keywords.at(n) == b.keywords.at(n), "column-keywords",
          when << ": keywords of column " << n << " are '" << b.keywords.at(n) << "', were '" << a.keywords.at(n) << "'");
    if (except.count(n)) continue;
    const Cells &y = b.columns.at(n);
    for (size_t r = 0; r < a.rows; ++r) {
      c.subEvaluations++;
      CHECK(x.second[r] == y[r], "other-column", when << ": column " << n << " row " << r << " changed");
    }
  }
  CHECK(a.tableKeywords == b.tableKeywords, "table-keywords",
        when << ": table keywords are '" << b.tableKeywords << "', were '" << a.tableKeywords << "'");
  CHECK(a.info == b.info, "table-info", when << ": table info is '" << b.info << "', was '" << a.info << "'");
}
void checkDirectory(const std::string &dir, const std::set<std::string> &expected, const std::string &when) {
  for (auto &e : fs::directory_iterator(dir)) {
    const std::string n = e.path().filename().string();
    CHECK(expected.count(n), "stray-file", when << ": '" << n << "' was left behind");
  }
}
// the record of the data manager that holds a column
Record managerOf(const Table &t, const std::string &col) {
  const Record info = t.dataManagerInfo();
  for (casacore::uInt i = 0; i < info.nfields(); ++i) {
    const Record r = info.subRecord(Int(i));
    for (const String &n : r.asArrayString("COLUMNS"))
      if (n == String(col)) return r;
  }
  throw Failure("no-manager", "no data manager holds column " + col);
}

// ------------------------------------------------------------ generated sets
using Flags = std::vector<std::vector<bool>>;
struct Set {
  Data d;                // visibility and weight columns (not compressed)
  std::vector<int> st;   // how each of those is stored
  int flagStorage = 0, flagKind = 0;
  Flags flags;
  bool ism = false, subtable = false, keywords = false, uvw = false, sharedTiled = false;
  std::string text() const {
    std::ostringstream s;
    s << d.l.text() << ", columns";
    for (size_t i = 0; i < d.cols.size(); ++i) s << ' ' << d.cols[i].name << "(storage " << st[i] << ")";
    s << ", flags of kind " << flagKind << (ism ? ", incremental" : "") << (subtable ? ", subtable" : "")
      << (keywords ? ", keywords" : "") << (uvw ? ", extra columns" : "");
    return s.str();
  }
};
constexpr int kStorages = 6;

Flags genFlags(Ctx &c, const Layout &l, int kind) {
  Flags f(l.nRows(), std::vector<bool>(l.visPerRow(), false));
  Expand e(c.raw());
  const size_t ch = e.below(uint32_t(l.visPerRow()));
  const int ant = int(e.below(uint32_t(l.maxAnt() + 1)));
  const int density = int(c.pick({4, 2, 20}));
  for (size_t r = 0; r < f.size(); ++r) {
    const bool row = e.below(uint32_t(density)) == 0;
    const bool block = (r / l.rowsPerBlock()) % 2 == 1;
    for (size_t i = 0; i < f[r].size(); ++i) switch (kind) {
        case 0: break;
        case 1: f[r][i] = e.below(uint32_t(density)) == 0; break;
        case 2: f[r][i] = row; break;
        case 3: f[r][i] = i == ch; break;
        case 4: f[r][i] = l.ant(r).first == ant || l.ant(r).second == ant; break;
        case 5: f[r][i] = block; break;
        default: f[r][i] = true;
      }
  }
  return f;
}

Set genSet(Ctx &c) {
  Set s;
  DataOpts o;
  o.incomplete = false;
  o.layout.maxRows = 500;
  o.layout.maxTime = 6;
  o.layout.big = false;
  o.layout.wide = 40;
  o.layout.wideRows = 2500;
  Data &d = s.d;
  d.l = genLayout(c, o.layout);
  while (d.l.visPerRow() * d.l.nRows() > 4000 && d.l.nChan > 1) d.l.nChan = (d.l.nChan + 1) / 2;
  d.nRows = d.l.nRows();
  d.cols.push_back({"DATA", false});
  if (c.chance(1, 2)) d.cols.push_back({"MODEL_DATA", false});
  if (c.chance(1, 4)) d.cols.push_back({"CORRECTED_DATA", false});
  if (c.chance(2, 3)) d.cols.push_back({"WEIGHT_SPECTRUM", true});
  d.vis.resize(d.cols.size());
  d.w.resize(d.cols.size());
  for (size_t i = 0; i < d.cols.size(); ++i) {
    genColumn(c, d, i);
    s.st.push_back(int(c.below(kStorages)));
  }
  s.flagStorage = int(c.below(kStorages));
  s.flagKind = int(c.weighted({2, 4, 1, 1, 1, 1, 1}));
  s.flags = genFlags(c, d.l, s.flagKind);
  s.ism = c.chance(1, 2);
  s.subtable = c.chance(1, 3);
  s.keywords = c.chance(1, 2);
  s.uvw = c.chance(1, 2);
  return s;
}

template <typename T>
ColumnDesc rawDesc(const std::string &name, int storage, const IPosition &shape, const std::string &group) {
  const char *type = storage == 1 ? "TiledColumnStMan" : storage == 2 ? "TiledShapeStMan" : "StandardStMan";
  if (storage == 2 || storage == 4) return ArrayColumnDesc<T>(name, "", type, group, 2);
  ArrayColumnDesc<T> d(name, "", type, group, shape);
  if (storage != 3) d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
  return d;
}
void bindRaw(SetupNewTable &setup, const std::string &name, int storage, const IPosition &shape, const casacore::DataManager &ssm) {
  IPosition tile(3, shape[0], std::max<ssize_t>(1, shape[1]), 4);
  if (storage == 1)
    setup.bindColumn(name, casacore::TiledColumnStMan("T_" + name, tile));
  else if (storage == 2)
    setup.bindColumn(name, casacore::TiledShapeStMan("T_" + name, tile));
  else if (storage == 5)
    setup.bindColumn(name, ssm);
  else
    setup.bindColumn(name, casacore::StandardStMan("S_" + name, 4096));
}

void putFlags(Table &t, const Layout &l, const Flags &f, size_t firstRow = 0) {
  ArrayColumn<Bool> col(t, "FLAG");
  Array<Bool> a(IPosition(2, ssize_t(l.nPol), ssize_t(l.nChan)));
  for (size_t r = firstRow; r < t.nrow(); ++r) {
    std::copy(f[r].begin(), f[r].end(), a.data());
    col.put(r, a);
  }
}

void addExtras(Table &t, const Set &s, const std::string &path) {
  if (s.uvw) {
    ArrayColumn<Double> uvw(t, "UVW");
    ArrayColumn<Float> w(t, "WEIGHT");
    ScalarColumn<String> name(t, "NAME");
    for (size_t r = 0; r < t.nrow(); ++r) {
      casacore::Vector<Double> v(3, double(r) * 1.25);
      uvw.put(r, v);
      if (r % 3 != 1) w.put(r, casacore::Vector<Float>(ssize_t(s.d.l.nPol), float(r)));
      name.put(r, "row " + std::to_string(r));
    }
  }
  if (s.keywords) {
    t.rwKeywordSet().define("MS_VERSION", 2.0);
    t.rwKeywordSet().define("REMARK", String("a remark"));
    TableColumn(t, "TIME").rwKeywordSet().define("UNIT", String("s"));
    for (auto &col : s.d.cols)
      if (t.tableDesc().isColumn(col.name)) TableColumn(t, col.name).rwKeywordSet().define("UNIT", String("Jy"));
    t.tableInfo().setType("Measurement Set");
    t.tableInfo().setSubType("sub");
    t.tableInfo().readmeAddLine("made by a test");
  }
  if (s.subtable) {
    TableDesc td("", TableDesc::Scratch);
    td.addColumn(ScalarColumnDesc<String>("NAME"));
    SetupNewTable setup(path + "/ANTENNA", td, Table::New);
    Table sub(setup, 3);
    ScalarColumn<String> n(sub, "NAME");
    for (size_t i = 0; i < 3; ++i) n.put(i, "ANT" + std::to_string(i));
    t.rwKeywordSet().defineTable("ANTENNA", sub);
  }
}
void addMetaDesc(TableDesc &td, const Set &s) {
  for (const char *n : {"ANTENNA1", "ANTENNA2", "FIELD_ID", "DATA_DESC_ID"}) td.addColumn(ScalarColumnDesc<int>(n));
  td.addColumn(ScalarColumnDesc<double>("TIME"));
  if (s.uvw) {
    td.addColumn(ArrayColumnDesc<Double>("UVW", IPosition(1, 3), ColumnDesc::Direct));
    td.addColumn(ArrayColumnDesc<Float>("WEIGHT", 1));
    td.addColumn(ScalarColumnDesc<String>("NAME"));
  }
}
void bindMeta(SetupNewTable &setup, const Set &s, casacore::DataManager &ssm, casacore::DataManager &ism) {
  for (const char *n : {"FIELD_ID", "DATA_DESC_ID", "TIME"}) setup.bindColumn(n, s.ism ? ism : ssm);
  for (const char *n : {"ANTENNA1", "ANTENNA2"}) setup.bindColumn(n, ssm);
  if (s.uvw)
    for (const char *n : {"UVW", "WEIGHT", "NAME"}) setup.bindColumn(n, ssm);
}

// A set without compression. `order`: the row of the layout for every row.
void makeRaw(const std::string &path, const Set &s) {
  const Layout &l = s.d.l;
  const IPosition shape(2, ssize_t(l.nPol), ssize_t(l.nChan));
  TableDesc td("", TableDesc::Scratch);
  addMetaDesc(td, s);
  for (size_t i = 0; i < s.d.cols.size(); ++i) {
    const std::string &n = s.d.cols[i].name;
    const std::string group = s.sharedTiled && !s.d.cols[i].weight ? "T_shared" : n;
    if (s.d.cols[i].weight)
      td.addColumn(rawDesc<Float>(n, s.st[i], shape, group));
    else
      td.addColumn(rawDesc<Complex>(n, s.st[i], shape, group));
  }
  td.addColumn(rawDesc<Bool>("FLAG", s.flagStorage, shape, "FLAG"));
  SetupNewTable setup(path, td, Table::New);
  casacore::StandardStMan ssm("SSM", 4096);
  casacore::IncrementalStMan ism("ISM", 1024);
  casacore::TiledColumnStMan shared("T_shared", IPosition(3, shape[0], shape[1], 4));
  bindMeta(setup, s, ssm, ism);
  for (size_t i = 0; i < s.d.cols.size(); ++i)
    if (s.sharedTiled && !s.d.cols[i].weight)
      setup.bindColumn(s.d.cols[i].name, shared);
    else
      bindRaw(setup, s.d.cols[i].name, s.st[i], shape, ssm);
  bindRaw(setup, "FLAG", s.flagStorage, shape, ssm);
  Table t(setup, s.d.nRows);
  fillMeta(t, l, 0, s.d.nRows);
  for (size_t r = 0; r < s.d.nRows; ++r)
    for (size_t i = 0; i < s.d.cols.size(); ++i) putCell(t, s.d, i, r);
  putFlags(t, l, s.flags);
  addExtras(t, s, path);
}

// ------------------------------------------------------------ C20
struct Options {
  std::vector<std::string> args;
  Config k;
  bool reorder = false;
};
Options genOptions(Ctx &c) {
  Options o;
  o.k.dataBits = 8;
  o.k.weightBits = 12;
  o.k.dist = ref::TruncGaussian;
  o.k.trunc = 2.5;
  o.k.nu = 1.0;
  o.k.norm = ref::AF;
  const int n = c.range(0, 6);
  for (int i = 0; i < n; ++i) switch (c.below(9)) {
      case 0:
        o.k.dataBits = c.pick({8u, 4u, 2u, 3u, 6u, 10u, 12u, 16u});
        o.args.insert(o.args.end(), {"-data-bit-rate", std::to_string(o.k.dataBits)});
        break;
      case 1:
        o.k.weightBits = c.pick({12u, 4u, 2u, 3u, 6u, 8u, 10u, 16u});
        o.args.insert(o.args.end(), {"-weight-bit-rate", std::to_string(o.k.weightBits)});
        break;
      case 2:
        o.k.dist = ref::Uniform;
        o.args.push_back("-uniform");
        break;
      case 3:
        o.k.dist = ref::Gaussian;
        o.args.push_back("-gaussian");
        break;
      case 4: {
        o.k.dist = ref::TruncGaussian;
        const char *sigma = c.pick<const char *>({"2.5", "1.5", "4", "0.7", "3.25"});
        o.k.trunc = atof(sigma);
        o.args.insert(o.args.end(), {"-truncgaus", sigma});
        break;
      }
      case 5:
        o.k.dist = ref::StudentT;
        o.args.push_back("-studentt");
        break;
      case 6:
        o.k.norm = c.pick({ref::RF, ref::Row, ref::AF});
        o.args.push_back(o.k.norm == ref::RF ? "-rfnormalization" : o.k.norm == ref::Row ? "-rownormalization" : "-afnormalization");
        break;
      case 7:
        o.k.staticSeed = true;
        o.args.push_back("-static-seed");
        break;
      default:
        if (c.chance(1, 2)) {
          o.reorder = true;
          o.args.push_back("-reorder");
        }
    }
  return o;
}
std::string joined(const std::vector<std::string> &a) {
  std::string r;
  for (auto &x : a) r += " " + x;
  return r;
}

void checkSpec(const Record &m, const Config &k, const std::string &when) {
  CHECK(m.asString("TYPE") == "DyscoStMan", "not-dysco", when << " is held by a " << m.asString("TYPE"));
  const Record s = m.subRecord("SPEC");
  const char *dist = k.dist == ref::Gaussian    ? "Gaussian"
                     : k.dist == ref::Uniform  ? "Uniform"
                     : k.dist == ref::StudentT ? "StudentsT"
                                               : "TruncatedGaussian";
  const char *norm = k.norm == ref::AF ? "AF" : k.norm == ref::RF ? "RF" : "Row";
  CHECK(s.asInt("dataBitCount") == int(k.dataBits), "spec", when << ": data bits " << s.asInt("dataBitCount"));
  CHECK(s.asInt("weightBitCount") == int(k.weightBits), "spec", when << ": weight bits " << s.asInt("weightBitCount"));
  CHECK(s.asString("distribution") == dist, "spec", when << ": distribution " << s.asString("distribution"));
  CHECK(s.asString("normalization") == norm, "spec", when << ": normalization " << s.asString("normalization"));
  if (k.dist == ref::TruncGaussian)
    CHECK(s.asDouble("distributionTruncation") == k.trunc, "spec",
          when << ": truncation " << s.asDouble("distributionTruncation"));
}

double maxGap(const std::vector<double> &lv) {
  double g = 0;
  for (size_t i = 1; i < lv.size(); ++i) g = std::max(g, lv[i] - lv[i - 1]);
  return g;
}

// factors with which a column is encoded the first time
std::vector<std::vector<double>> firstFactors(Ctx &c, const Data &d, size_t col) {
  Data e = d;
  e.cols = {d.cols[col]};
  e.vis = {d.vis[col]};
  e.w = {Weights()};
  e.k.name = "first";
  const std::string path = c.scratch() + "/first.ms";
  writeTable(path, e, 2, false);
  const ref::File f = ref::parse(ref::slurp(dyscoFile(path)));
  std::vector<std::vector<double>> r;
  for (size_t b = 0; b < d.nBlocks(); ++b) {
    const BlockValues v = decodeBlock(f, d.l, e.cols, 0, b);
    r.insert(r.end(), v.factor.begin(), v.factor.end());
  }
  fs::remove_all(path);
  return r;
}

struct Manager {  // made by one run of dscompress
  Config k;
  std::vector<size_t> cols;  // in file order
};

// values of all compressed columns after a run; `encodings`: how often they were encoded
// by that run, `values`: the values before it, replaced by those after it
void checkCompressed(Ctx &c, const std::string &path, const Set &s, const std::vector<Manager> &managers,
                     const std::vector<int> &encodings, std::vector<Vis> &values, const std::string &when) {
  Table t(path, Table::Old);
  for (const Manager &m : managers) {
    Data d;
    d.l = s.d.l;
    d.nRows = s.d.nRows;
    d.k = m.k;
    for (size_t i : m.cols) {
      d.cols.push_back(s.d.cols[i]);
      d.vis.push_back(values[i]);
      d.w.push_back(s.d.w[i]);
    }
    ref::File f;
    for (size_t j = 0; j < m.cols.size(); ++j) {
      const std::string &n = d.cols[j].name;
      const Record rec = managerOf(t, n);
      checkSpec(rec, m.k, when + ": column " + n);
      const ColumnDesc &cd = t.tableDesc().columnDesc(n);
      CHECK(cd.isArray() && cd.dataType() == (d.cols[j].weight ? casacore::TpFloat : casacore::TpComplex), "type",
            when << ": type of column " << n);
      if (j == 0) {
        const std::string name = rec.asString("NAME");
        f = ref::parse(ref::slurp(dyscoFile(path, &name)));
        CHECK(f.rowsPerBlock == d.l.rowsPerBlock(), "block-size",
              when << ": blocks of " << f.rowsPerBlock << " rows, expected " << d.l.rowsPerBlock());
      }
      const Vis got = readColumn(t, d, j);
      if (d.cols[j].weight) {
        checkWeightColumn(c, d, j, got, when);
        continue;
      }
      for (size_t r = 0; r < d.nRows; ++r)
        for (size_t i = 0; i < d.l.visPerRow(); ++i) {
          const cf &x = d.vis[j][r][i], &y = got[r][i];
          c.subEvaluations++;
          CHECK((std::isfinite(x.real()) || !std::isfinite(y.real())) && (std::isfinite(x.imag()) || !std::isfinite(y.imag())),
                "flagged-finite", when << ": column " << n << " row " << r << " value " << i << ": flagged or non-finite value " << x
                                       << " is read as " << y);
        }
      const int nEnc = encodings[m.cols[j]];
      values[m.cols[j]] = got;
      if (nEnc == 0) {
        for (size_t r = 0; r < d.nRows; ++r)
          CHECK(identical(got[r], d.vis[j][r]), "touched",
                when << ": column " << n << " row " << r << " changed, although it was not to be compressed");
        continue;
      }
      if (nEnc == 1) {
        checkColumnAccuracy(c, d, j, f, got, when);
        continue;
      }
      // encoded twice: at most one step each time
      const auto f1 = firstFactors(c, d, j);
      const std::vector<double> lv = d.k.levels();
      const double gap = maxGap(lv);
      for (size_t b = 0; b < d.nBlocks(); ++b) {
        const BlockValues bv = decodeBlock(f, d.l, d.cols, j, b);
        for (size_t r = 0; r < d.l.rowsPerBlock(); ++r) {
          const size_t row = b * d.l.rowsPerBlock() + r;
          const bool isAuto = d.l.ant(row).first == d.l.ant(row).second;
          for (size_t i = 0; i < d.l.visPerRow(); ++i) {
            const cf &x = d.vis[j][row][i], &y = got[row][i];
            if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) continue;
            CHECK(std::isfinite(y.real()) && std::isfinite(y.imag()), "became-nonfinite",
                  when << ": column " << n << " row " << row << " value " << i << ": " << x << " is read as " << y);
            if (isAuto && d.k.norm == ref::AF) continue;
            const double fac = std::max(std::fabs(f1[row][i]), std::fabs(bv.factor[r][i]));
            const double bound = 1.1 * nEnc * gap * fac + 1e-4 * std::max(std::fabs(x.real()), std::fabs(x.imag()));
            // (not representable: an antenna that is extremely weak)
            if (f1[row][i] == 0.0 || (bv.factor[r][i] == 0.0 && y == cf(0, 0))) continue;
            CHECK(std::fabs(double(y.real()) - x.real()) <= bound && std::fabs(double(y.imag()) - x.imag()) <= bound, "step",
                  when << ": column " << n << " row " << row << " value " << i << ": " << x << " is read as " << y << " after "
                       << nEnc << " encodings; bound " << bound << ", scale factor " << bv.factor[r][i] << ", first " << f1[row][i] << ", largest step " << gap);
          }
        }
      }
    }
  }
}

void applyFlags(Vis &v, const Flags &f) {
  for (size_t r = 0; r < v.size(); ++r)
    for (size_t i = 0; i < v[r].size(); ++i)
      if (f[r][i]) v[r][i] = cf(kNaN, kNaN);
}

std::string msArgument(Ctx &c, const std::string &path) {
  const std::string name = fs::path(path).filename().string();
  std::string arg;
  switch (c.below(4)) {
    case 1: arg = name; break;
    case 2: arg = "./" + name; break;
    case 3: arg = "../" + fs::path(path).parent_path().filename().string() + "/" + name; break;
    default: arg = path; break;
  }
  arg.append(c.pick<size_t>({0, 0, 1, 1, 2, 3}), '/');
  return arg;
}

void compress(Ctx &c) {
  Set s = genSet(c);
  const std::string dir = c.scratch() + "/work", path = dir + "/" + c.pick<const char *>({"t.ms", "MS", "a b.MS"});
  fs::create_directory(dir);
  Silence quiet;
  makeRaw(path, s);
  c.note(s.text());
  std::vector<Vis> values = s.d.vis;
  std::vector<bool> compressed(s.d.cols.size(), false);
  std::vector<Manager> managers;
  std::set<std::string> touched;
  const int nRuns = c.chance(1, 3) ? 2 : 1;
  for (int run = 0; run < nRuns; ++run) {
    if (run && c.chance(1, 3)) {  // more flags
      const Flags more = genFlags(c, s.d.l, 1);
      for (size_t r = 0; r < more.size(); ++r)
        for (size_t i = 0; i < more[r].size(); ++i)
          if (more[r][i]) s.flags[r][i] = true;
      Table t(path, Table::Update);
      putFlags(t, s.d.l, s.flags);
    }
    const Snapshot before = snap(path);
    Options o = genOptions(c);
    std::vector<size_t> requested;
    std::vector<std::string> args = o.args;
    if (c.chance(3, 4)) {
      const int n = c.range(1, int(s.d.cols.size()) + 1);
      for (int j = 0; j < n; ++j) {
        const size_t i = c.below(uint32_t(s.d.cols.size()));
        const ssize_t at = c.chance(1, 3) ? 0 : ssize_t(args.size());
        // (options before or after; the order of the columns is kept when they are at the end)
        if (at == 0 && !requested.empty()) {
          args.insert(args.end(), {"-column", s.d.cols[i].name});
        } else {
          args.insert(args.begin() + at, {"-column", s.d.cols[i].name});
        }
        if (std::find(requested.begin(), requested.end(), i) == requested.end()) requested.push_back(i);
      }
    } else {
      requested.push_back(0);  // DATA
    }
    args.push_back(msArgument(c, path));
    const std::string when = s.text() + ", dscompress" + joined(args);
    c.note("; dscompress").note(joined(args));
    Manager m;
    m.k = o.k;
    std::vector<int> encodings(s.d.cols.size(), 0);
    for (size_t i : requested) {
      touched.insert(s.d.cols[i].name);
      if (!compressed[i]) {
        m.cols.push_back(i);
        compressed[i] = true;
        encodings[i] = 1;
      } else if (!s.d.cols[i].weight) {
        encodings[i] = 1;  // (flagged values were written)
      }
      if (!s.d.cols[i].weight) applyFlags(values[i], s.flags);
    }
    // columns that were compressed before are encoded again by -reorder
    std::set<std::string> except;
    for (size_t i = 0; i < encodings.size(); ++i)
      if (compressed[i]) {
        if (o.reorder && !m.cols.empty()) encodings[i]++;
        except.insert(s.d.cols[i].name);
      }
    if (!(o.reorder && !m.cols.empty())) {
      except.clear();
      for (size_t i : requested) except.insert(s.d.cols[i].name);
    }
    if (!m.cols.empty()) managers.push_back(m);
    const bool twice = o.k.staticSeed && run == 0 && !o.reorder && c.chance(1, 2);
    if (twice) fs::copy(path, c.scratch() + "/copy.ms", fs::copy_options::recursive);
    const Outcome out = runTool(c, "DSCOMPRESS", args, dir);
    CHECK(out.ok(), "failed", when << ": " << out.text());
    checkSame(c, before, snap(path), except, when);
    checkDirectory(dir, {fs::path(path).filename().string()}, when);
    checkCompressed(c, path, s, managers, encodings, values, when);
    if (twice) {
      args.back() = c.scratch() + "/copy.ms";
      const Outcome out2 = runTool(c, "DSCOMPRESS", args, dir);
      CHECK(out2.ok(), "failed", when << ", on a copy: " << out2.text());
      CHECK(ref::slurp(dyscoFile(path)) == ref::slurp(dyscoFile(args.back())), "static-seed",
            when << ": the files of two runs differ");
      c.label("run twice with a static seed");
    }
    c.label("runs");
    c.label(o.k.norm == ref::AF ? "AF" : o.k.norm == ref::RF ? "RF" : "Row");
  
    if (o.reorder) c.label("with -reorder");
    if (m.cols.size() > 1) c.label("several columns");
    if (m.cols.empty()) c.label("nothing to compress");
  }
  c.nontrivial();
}
TFACET("C20", "compress", compress, 220, 1200, 40000,
       "random regular sets (settings of casacore's own managers, flags, extra columns, keywords, "
       "subtables), 1-2 runs of dscompress with random options and columns; every case is non-trivial");

// A set that dscompress must refuse.
bool regular(const Table &t) {
  ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID"), d(t, "DATA_DESC_ID");
  ScalarColumn<double> time(t, "TIME");
  std::vector<std::vector<std::pair<int, int>>> blocks;
  for (size_t r = 0; r < t.nrow(); ++r) {
    if (r == 0 || time(r) != time(r - 1) || f(r) != f(r - 1) || d(r) != d(r - 1)) blocks.emplace_back();
    blocks.back().emplace_back(a1(r), a2(r));
  }
  for (auto &b : blocks)
    if (b != blocks[0]) return false;
  return true;
}

void refuse(Ctx &c) {
  Set s = genSet(c);
  const std::string dir = c.scratch() + "/work", path = dir + "/t.ms";
  fs::create_directory(dir);
  Silence quiet;
  Options o = genOptions(c);
  std::vector<std::string> args = o.args;
  std::vector<std::string> columns;
  for (auto &col : s.d.cols)
    if (c.chance(1, 2)) columns.push_back(col.name);
  if (columns.empty()) columns.push_back("DATA");
  const int kind = int(c.below(14));
  const IPosition shape(2, ssize_t(s.d.l.nPol), ssize_t(s.d.l.nChan));
  std::string what;
  if (kind == 10) {  // DATA shares a tiled manager with another column
    bool other = false;
    for (auto &col : s.d.cols) other |= !col.weight && col.name != "DATA";
    if (!other) return;
    s.sharedTiled = true;
    s.st.assign(s.st.size(), 1);
    columns = {"DATA"};
    what = "a column that can not be removed from its manager";
  }
  makeRaw(path, s);
  auto addColumnName = [&](const std::string &n) {
    columns.insert(columns.begin() + ssize_t(c.below(uint32_t(columns.size() + 1))), n);
  };
  {
    Table t(path, Table::Update);
    const size_t n = t.nrow(), B = s.d.l.rowsPerBlock();
    ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), fi(t, "FIELD_ID");
    ScalarColumn<double> time(t, "TIME");
    switch (kind) {
      case 0: {  // a missing row (a tiled manager can not remove rows; change the time instead)
        const size_t r = c.below(uint32_t(n));
        time.put(r, time(r) + c.pick({5.0, -3.0, 1e6, 1e-4, -1e-5, 0.9}));
        what = "another time in row " + std::to_string(r);
        break;
      }
      case 1: {
        const size_t r = c.below(uint32_t(n));
        (c.chance(1, 2) ? a1 : a2).put(r, c.range(0, int(s.d.l.maxAnt()) + 1));
        what = "another antenna in row " + std::to_string(r);
        break;
      }
      case 2: {  // an extra row at the end
        t.addRow(1);
        const size_t b = s.d.l.nTime - 1;
        a1.put(n, s.d.l.ant(0).first), a2.put(n, s.d.l.ant(0).second);
        const bool next = c.chance(1, 2);
        time.put(n, s.d.l.times[b] + (next ? 1.0 : 0.0)), fi.put(n, s.d.l.fields[b]);
        ScalarColumn<int>(t, "DATA_DESC_ID").put(n, s.d.l.ddids[b]);
        s.flags.push_back(std::vector<bool>(s.d.l.visPerRow()));
        putFlags(t, s.d.l, s.flags, n);
        for (size_t i = 0; i < s.d.cols.size(); ++i)
          if (s.d.cols[i].weight)
            putWeight(t, s.d.cols[i].name, n, s.d.l, s.d.w[i][0]);
          else
            putVis(t, s.d.cols[i].name, n, s.d.l, s.d.vis[i][0]);
        what = next ? "one row of another timestep at the end" : "one more row in the last timestep";
        break;
      }
      case 3: {  // rows exchanged inside a block
        if (B < 2) return;
        const size_t b = c.below(uint32_t(s.d.l.nTime));
        const size_t r = b * B + c.below(uint32_t(B)), q = b * B + c.below(uint32_t(B));
        const int x = a1(r), y = a2(r);
        a1.put(r, a1(q)), a2.put(r, a2(q));
        a1.put(q, x), a2.put(q, y);
        what = "exchanged baselines";
        break;
      }
      case 4:
        args.insert(args.end(), {"-data-bit-rate", c.pick<const char *>({"5", "0", "-8", "32", "7", "17", "eight", "256", "264"})});
        what = "bit rate";
        break;
      case 5:
        args.insert(args.end(), {"-weight-bit-rate", c.pick<const char *>({"5", "0", "-8", "32", "7", "17", "eight", "256", "264"})});
        what = "weight bit rate";
        break;
      case 6:
        args.insert(args.end(), {"-truncgaus", c.pick<const char *>({"0", "-2", "nan", "x", "-inf"})});
        what = "truncation";
        break;
      case 7:
        args.insert(args.begin(), c.pick<const char *>({"-foo", "-", "--reorder", "-Uniform", "-h"}));
        what = "option";
        break;
      case 8:
        addColumnName(c.pick<const char *>({"NOT_THERE", "data", "TEMP_DATA"}));
        what = "column that does not exist";
        break;
      case 9:
        addColumnName(c.pick<const char *>({"TIME", "ANTENNA1", "FLAG"}));
        what = "column of another type";
        break;
      case 10: break;
      case 11: {  // a column of another shape than the flags
        IPosition other = c.pick({IPosition(2, shape[0], shape[1] + 1), IPosition(2, shape[0] + 1, shape[1]),
                                  IPosition(1, shape[0]), IPosition(3, shape[0], shape[1], 1), IPosition(2, shape[1] + 3, shape[0])});
        t.addColumn(ArrayColumnDesc<Complex>("OTHER", other));
        ArrayColumn<Complex> col(t, "OTHER");
        for (size_t r = 0; r < n; ++r) col.put(r, Array<Complex>(other, Complex(float(r), 1.0f)));
        addColumnName("OTHER");
        what = "column of another shape";
        break;
      }
      case 12: {  // cells of different shapes, or without value
        t.addColumn(ArrayColumnDesc<Complex>("OTHER", -1));
        ArrayColumn<Complex> col(t, "OTHER");
        const size_t odd = c.below(uint32_t(n));
        const bool undefined = c.chance(1, 2);
        for (size_t r = 0; r < n; ++r)
          if (r != odd)
            col.put(r, Array<Complex>(shape, Complex(float(r), 1.0f)));
          else if (!undefined)
            col.put(r, Array<Complex>(IPosition(2, shape[0], shape[1] + 1), Complex(float(r), 1.0f)));
        addColumnName("OTHER");
        what = undefined ? "column with an undefined cell" : "column with cells of different shapes";
        break;
      }
      default:
        t.addColumn(ScalarColumnDesc<int>("TEMP_" + columns[0]));
        what = "the temporary name is in use";
    }
    if (kind <= 3 && regular(t)) {
      c.label("regular after all");
      return;
    }
  }
  for (auto &n : columns) args.insert(args.end(), {"-column", n});
  args.push_back(msArgument(c, path));
  const Snapshot before = snap(path);
  const std::string when = s.text() + ", " + what + ", dscompress" + joined(args);
  c.note(when);
  c.label(what.substr(0, what.find(" in row")));
  const Outcome out = runTool(c, "DSCOMPRESS", args, dir);
  CHECK(!out.ok(), "not-refused", when << ": was not refused");
  CHECK(out.refused(), "crash", when << ": " << out.text());
  checkSame(c, before, snap(path), {}, when);
  checkDirectory(dir, {"t.ms"}, when);
  {
    Table t(path, Table::Old);
    for (auto &col : s.d.cols)
      CHECK(managerOf(t, col.name).asString("TYPE") != "DyscoStMan", "compressed", when << ": " << col.name << " was compressed");
  }
  c.nontrivial();
}
TFACET("C20", "refuse", refuse, 220, 1500, 40000,
       "random sets that are irregular in one row, options that are invalid, or columns that do not "
       "exist or can not be stored: dscompress ends with an error (not with a crash) and every value, "
       "column and keyword of the set is as before; non-trivial: the set is really irregular, or another kind");

// ------------------------------------------------------------ C21
void decompress(Ctx &c) {
  Set s;
  DataOpts o;
  o.layout.maxRows = 500;
  o.layout.maxTime = 6;
  o.layout.big = false;
  o.layout.wide = 40;
  o.layout.wideRows = 2500;
  Data &d = s.d;
  d.l = genLayout(c, o.layout);
  while (d.l.visPerRow() * d.l.nRows() > 4000 && d.l.nChan > 1) d.l.nChan = (d.l.nChan + 1) / 2;
  d.nRows = d.l.nRows();
  const bool data = c.chance(5, 6), weight = c.chance(3, 4);
  if (data) d.cols.push_back({"DATA", false});
  if (weight) d.cols.push_back({"WEIGHT_SPECTRUM", true});
  if (c.chance(1, 3)) d.cols.push_back({"MODEL_DATA", false});
  if (c.chance(1, 6)) d.cols.push_back({"CORRECTED_DATA", false});
  for (size_t i = d.cols.size(); i > 1; --i) std::swap(d.cols[i - 1], d.cols[c.below(uint32_t(i))]);
  d.vis.resize(d.cols.size());
  d.w.resize(d.cols.size());
  s.ism = c.chance(1, 2);
  s.subtable = c.chance(1, 3);
  s.keywords = c.chance(1, 2);
  s.uvw = c.chance(1, 2);
  s.flagStorage = int(c.below(kStorages));
  s.flags = genFlags(c, d.l, int(c.below(4)));
  // where each column is: -1 in a manager of casacore, else a Dysco manager
  std::vector<int> home;
  std::vector<Config> managers;
  const int nManagers = c.range(1, 2);
  for (int i = 0; i < nManagers; ++i) {
    managers.push_back(genConfig(c));
    managers.back().name = i == 0 ? c.pick<const char *>({"DyscoStMan", "D", "DATA"}) : "second";
  }
  for (size_t i = 0; i < d.cols.size(); ++i) {
    genColumn(c, d, i);
    s.st.push_back(int(c.below(kStorages)));
    home.push_back(c.chance(1, 5) ? -1 : int(c.below(uint32_t(nManagers))));
  }
  const bool dyscoFirst = c.chance(1, 2);
  const size_t written = c.chance(1, 8) ? d.nRows - c.below(uint32_t(d.l.rowsPerBlock())) : d.nRows;

  const std::string dir = c.scratch() + "/work", path = dir + "/" + c.pick<const char *>({"t.ms", "MS", "a b.MS"});
  fs::create_directory(dir);
  Silence quiet;
  const IPosition shape(2, ssize_t(d.l.nPol), ssize_t(d.l.nChan));
  {
    TableDesc td("", TableDesc::Scratch);
    addMetaDesc(td, s);
    for (size_t i = 0; i < d.cols.size(); ++i) {
      const std::string &n = d.cols[i].name;
      ColumnDesc cd = d.cols[i].weight ? rawDesc<Float>(n, home[i] < 0 ? s.st[i] : 0, shape, n)
                                       : rawDesc<Complex>(n, home[i] < 0 ? s.st[i] : 0, shape, n);
      if (home[i] >= 0) {
        cd.dataManagerType() = "DyscoStMan";
        cd.dataManagerGroup() = managers[size_t(home[i])].name;
      }
      td.addColumn(cd);
    }
    td.addColumn(rawDesc<Bool>("FLAG", s.flagStorage, shape, "FLAG"));
    SetupNewTable setup(path, td, Table::New);
    std::vector<std::unique_ptr<dyscostman::DyscoStMan>> m;
    for (auto &k : managers) m.push_back(makeStMan(k));
    auto bindDysco = [&]() {
      for (size_t i = 0; i < d.cols.size(); ++i)
        if (home[i] >= 0) setup.bindColumn(d.cols[i].name, *m[size_t(home[i])]);
    };
    if (dyscoFirst) bindDysco();
    casacore::StandardStMan ssm("SSM", 4096);
    casacore::IncrementalStMan ism("ISM", 1024);
    bindMeta(setup, s, ssm, ism);
    for (size_t i = 0; i < d.cols.size(); ++i)
      if (home[i] < 0) bindRaw(setup, d.cols[i].name, s.st[i], shape, ssm);
    bindRaw(setup, "FLAG", s.flagStorage, shape, ssm);
    if (!dyscoFirst) bindDysco();
    Table t(setup, d.nRows);
    fillMeta(t, d.l, 0, d.nRows);
    for (size_t r = 0; r < d.nRows; ++r)
      for (size_t i = 0; i < d.cols.size(); ++i)
        if (home[i] < 0 || r < written) putCell(t, d, i, r);
    putFlags(t, d.l, s.flags);
    addExtras(t, s, path);
  }
  const Snapshot before = snap(path);
  std::vector<Vis> values;
  std::set<std::string> except;
  bool any = false;
  {
    Table t(path, Table::Old);
    for (size_t i = 0; i < d.cols.size(); ++i) values.push_back(readColumn(t, d, i));
  }
  std::ostringstream text;
  for (size_t i = 0; i < d.cols.size(); ++i) {
    const std::string &n = d.cols[i].name;
    text << ' ' << n << (home[i] < 0 ? " (not compressed)" : " in " + managers[size_t(home[i])].text());
    const bool replaced = home[i] >= 0 && (n == "DATA" || n == "WEIGHT_SPECTRUM");
    any |= replaced;
    if (home[i] >= 0) except.insert(n);  // compared by value, below
  }
  const std::string arg = msArgument(c, path);
  const std::string when = d.l.text() + "," + text.str() + ", " + std::to_string(written) + " rows written, decompress " + arg;
  c.note(when);
  const Outcome out = runTool(c, "DECOMPRESS", {arg}, dir);
  CHECK(out.ok(), "failed", when << ": " << out.text());
  checkSame(c, before, snap(path), except, when);
  checkDirectory(dir, {fs::path(path).filename().string()}, when);
  Table t(path, Table::Old);
  for (size_t i = 0; i < d.cols.size(); ++i) {
    const std::string &n = d.cols[i].name;
    const std::string type = managerOf(t, n).asString("TYPE");
    const bool replaced = home[i] >= 0 && (n == "DATA" || n == "WEIGHT_SPECTRUM");
    if (home[i] >= 0 && !replaced) {
      CHECK(type == "DyscoStMan", "manager", when << ": " << n << " is held by a " << type);
      c.label("other compressed column");
      if (any) {  // encoded once more by the copy
        ref::File f;
        const std::string name = managerOf(t, n).asString("NAME");
        Data e;
        e.k = managers[size_t(home[i])];
        e.l = d.l;
        e.nRows = written;
        std::vector<size_t> at;
        for (size_t j = 0; j < d.cols.size(); ++j)
          if (home[j] == home[i] && d.cols[j].name != "DATA" && d.cols[j].name != "WEIGHT_SPECTRUM") {
            if (j == i) at.push_back(e.cols.size());
            e.cols.push_back(d.cols[j]);
            e.vis.push_back(values[j]);
            e.w.push_back(Weights());
          }
        f = ref::parse(ref::slurp(dyscoFile(path, &name)));

        checkColumnAccuracy(c, e, at[0], f, readColumn(t, d, i), when);
        continue;
      }
    } else {
      CHECK(type != "DyscoStMan", "still-dysco", when << ": " << n << " is held by a " << type);
    }
    for (size_t r = 0; r < d.nRows; ++r) {
      c.subEvaluations++;
      const std::vector<cf> v = readCell(t, d, i, r);
      CHECK(identical(v, values[i][r]), "value",
            when << ": column " << n << " row " << r << " reads " << v[0] << "..., was " << values[i][r][0] << "...");
    }
    if (replaced) c.label("replaced " + n);
  }
  if (!any)
    for (auto &x : before.columns) CHECK(cells(t, x.first) == x.second, "changed", when << ": column " << x.first << " changed");
  if (any) c.nontrivial();
}
TFACET("C21", "decompress", decompress, 260, 1200, 40000,
       "random sets of which the data and weight columns are compressed or not, in one or two Dysco "
       "managers that may hold other columns too, are decompressed: no Dysco manager, exactly the values "
       "that were read before, all other columns unchanged; non-trivial: a column was replaced");

// Both programs after each other.
void both(Ctx &c) {
  Set s = genSet(c);
  const std::string dir = c.scratch() + "/work", path = dir + "/t.ms";
  fs::create_directory(dir);
  Silence quiet;
  makeRaw(path, s);
  const Snapshot raw = snap(path);
  Options o = genOptions(c);
  std::vector<std::string> args = o.args;
  bool weight = false;
  for (auto &col : s.d.cols) weight |= col.weight;
  args.insert(args.end(), {"-column", "DATA"});
  if (weight) args.insert(args.end(), {"-column", "WEIGHT_SPECTRUM"});
  args.push_back(path);
  const std::string when = s.text() + ", dscompress" + joined(args) + " and decompress";
  c.note(when);
  const Outcome out = runTool(c, "DSCOMPRESS", args, dir);
  CHECK(out.ok(), "failed", when << ": " << out.text());
  const Snapshot compressed = snap(path);
  const int n = c.range(1, 2);
  for (int i = 0; i < n; ++i) {
    const Outcome out2 = runTool(c, "DECOMPRESS", {msArgument(c, path)}, dir);
    CHECK(out2.ok(), "failed", when << ": " << out2.text());
    checkSame(c, compressed, snap(path), {"DATA", "WEIGHT_SPECTRUM"}, when);
    checkSame(c, raw, snap(path), {"DATA", "WEIGHT_SPECTRUM"}, when);
    Table t(path, Table::Old);
    for (size_t j = 0; j < s.d.cols.size(); ++j) {
      const std::string &name = s.d.cols[j].name;
      CHECK(managerOf(t, name).asString("TYPE") != "DyscoStMan", "still-dysco", when << ": column " << name);
      for (size_t r = 0; r < s.d.nRows; ++r) {
        const std::vector<cf> v = readCell(t, s.d, j, r);
        std::string b = s.d.cols[j].weight ? cell<Float>(t, name, r) : cell<Complex>(t, name, r);
        const std::string &w = compressed.columns.at(name)[r];
        bool same = b == w;
        if (!same && !s.d.cols[j].weight && b.size() == w.size()) {  // NaNs may have another sign
          const size_t head = b.size() - v.size() * sizeof(cf);
          std::vector<cf> u(v.size());
          memcpy(u.data(), w.data() + head, u.size() * sizeof(cf));
          same = identical(v, u);
        }
        CHECK(same, "value", when << ": column " << name << " row " << r << " changed by decompress");
      }
    }
  }
  c.nontrivial();
}
TFACET("C21", "both", both, 220, 500, 16000,
       "random sets are compressed by dscompress and decompressed again (once or twice): exactly the "
       "values of the compressed set; every case is non-trivial");

}  // namespace
