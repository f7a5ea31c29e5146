// For programs that do not perturb thread timing.
#include "delay.h"

namespace delay {
std::string Plan::text() const { return ""; }
bool available() { return false; }
void arm(const Plan &) {}
void disarm() {}
uint64_t operations() { return 0; }
}  // namespace delay
