// The dictionary of /repo compiled with its assertions enabled, whatever the
// flags of the rest of the harness.
#undef NDEBUG
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <vector>
#define dyscostman dyscostman_dbg
#include "dictionary.h"
#undef dyscostman

#include "dict_dbg.h"

std::vector<uint32_t> dbgSearch(const std::vector<float> &levels, const std::vector<float> &values) {
  dyscostman_dbg::Dictionary d(levels.size());
  std::copy(levels.begin(), levels.end(), d.begin());
  std::vector<uint32_t> r;
  for (float v : values) {
    auto it = d.lower_bound(v);
    r.push_back(d.symbol(it));
    (void)d.largest_symbol();
  }
  return r;
}
