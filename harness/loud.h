// Logging of the code under test: quiet, or every message formatted and handed
// to an output that changes errno, as writing to a file may.
#pragma once
#include "pbt.h"
#include <errno.h>
#include "kanon/log/logger.h"
static inline void logging(bool loud)
{
  kanon::Logger::SetOutputCallback([](char const *, size_t) { errno = EIO; });
  kanon::Logger::SetLogLevel(loud ? kanon::Logger::KANON_LL_TRACE : kanon::Logger::KANON_LL_FATAL);
}
static inline void logging(pbt::Gen &g)
{
  bool l = g.chance(1, 4);
  logging(l);
  NOTE("logging: %s", l ? "on" : "off");
}
