// Model-based test of a table with Dysco columns: a random history of puts,
// gets, growing, closing and reopening against a model of the table.
#ifndef HISTORY_H
#define HISTORY_H

#include "kit.h"

struct HistoryOptions {
  int maxOps = 60;
  int maxColumns = 2;
  bool invalid = false;     // mixed with requests that must be refused
  bool moreBlocks = false;  // this half of the time
  bool manyBlocks = true;  // sometimes far more blocks than the write cache holds
};
void history(pbt::Ctx &c, const HistoryOptions &o);

#endif
