// Schedule noise at the synchronisation calls of the code under test.
// The harness is linked with -Wl,--wrap for the pthread calls below; before
// and after each of them (when enabled) the calling thread may yield, spin or
// sleep, and condition waits may return spuriously, as POSIX allows.
#pragma once
#include <stdint.h>

namespace schedfuzz {
// noise: 0 none .. 3 heavy; spurious: percentage of waits that return without
// a notification.  Call while no other thread of the case runs.
void setup(uint64_t seed, unsigned noise, unsigned spurious);
void off();
void point();              // a scheduling point
unsigned spurious_count(); // spurious wakeups injected since setup()
}  // namespace schedfuzz
