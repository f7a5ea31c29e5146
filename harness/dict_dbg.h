#pragma once
#include <cstdint>
#include <vector>
std::vector<uint32_t> dbgSearch(const std::vector<float> &levels, const std::vector<float> &values);
