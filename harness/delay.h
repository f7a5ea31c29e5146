// Perturbation of thread timing: while armed, lock, condition variable, thread
// creation and file operations of all threads are delayed at random.
#ifndef DELAY_H
#define DELAY_H

#include <cstdint>
#include <string>

namespace delay {
struct Plan {
  uint64_t seed = 0;
  unsigned perMille = 0;      // probability of a delay per operation
  unsigned maxMicros = 0;     // maximum length of a delay
  unsigned mainPerMille = 0;  // the same for the thread that armed it
  unsigned spurious = 0;      // per mille of waits that wake up spuriously
  unsigned slowWrite = 0;     // microseconds per write to a file
  unsigned processors = 0;    // reported number of processors; 0: the real number
  std::string text() const;
};
bool available();      // false if this program does not have the hooks
void arm(const Plan &p);
void disarm();
// Kill this process at a write to a file of a Dysco manager, after the given
// number of writes to such files; of that write, only the given number of
// bytes are stored.
void killAt(uint64_t writes, size_t bytes);
uint64_t operations(); // delayed operations since arm()
}  // namespace delay

#endif
