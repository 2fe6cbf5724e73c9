// Injected short counts and errors for read/write calls on chosen descriptors.
// The harness is linked with -Wl,--wrap for every call below; calls on
// descriptors without a plan go straight to the kernel.
#pragma once
#include <sys/types.h>
#include <functional>
#include <vector>

namespace faultio {
struct Act {
  int err;       // != 0: fail with this errno
  size_t limit;  // otherwise: transfer at most this many bytes
};
// Successive calls on fd take successive acts; after the last one the plan is
// exhausted and the calls are passed through.
void plan_write(int fd, std::vector<Act> acts);
void plan_read(int fd, std::vector<Act> acts);
void clear(int fd);
void clear_all();
// fn(n) after every write call on fd that transferred n > 0 bytes.
void watch_write(int fd, std::function<void(size_t)> fn);
unsigned long injected();   // number of acts applied since clear_all()
}  // namespace faultio

#define FAULTIO_LIBS                                                           \
  "-Wl,--wrap=write,--wrap=writev,--wrap=send,--wrap=sendmsg,--wrap=read,--wrap=readv,--wrap=recv,--wrap=recvmsg"
