// Loopback addresses that no other worker process and no other run uses.
#pragma once
#include "pbt.h"
#include <unistd.h>
static inline uint32_t my_address(unsigned host)   // host 1..254, host byte order
{
  return 0x7f000000u | (20u + (uint32_t)getppid() % 200u) << 16 | (pbt::worker_index() % 256u) << 8 | host;
}
