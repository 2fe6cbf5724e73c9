// A scratch directory of this run, removed when it ends; one case directory per
// case inside it.  Include once per program.
#pragma once
#include "pbt.h"
#include <ftw.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <unistd.h>
#include <string>
static std::string g_scratch;
static int scratch_rm(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void remove_tree(std::string const &d)
{
  if (d.find("/kanon-scratch-") == std::string::npos) return;
  nftw(d.c_str(), scratch_rm, 16, FTW_DEPTH | FTW_PHYS);
}
struct Scratch {
  pid_t owner = getpid();
  Scratch()
  {
    for (const char *base : {"/dev/shm", "/tmp"}) {
      char t[64];
      struct statvfs v;
      if (!strcmp(base, "/dev/shm") && (statvfs(base, &v) || (uint64_t)v.f_bavail * v.f_frsize < 4ull << 30)) continue;
      snprintf(t, sizeof t, "%s/kanon-scratch-XXXXXX", base);
      if (mkdtemp(t)) {
        g_scratch = t;
        return;
      }
    }
    fprintf(stderr, "no scratch directory\n");
    exit(2);
  }
  ~Scratch()
  {
    if (getpid() == owner) {
      (void)!chdir("/");
      remove_tree(g_scratch);
    }
  }
};
// A fresh directory for this case; the previous one of this process is removed.
static std::string case_dir()
{
  static std::string last;
  static pid_t who;
  static unsigned n;
  if (last.size() && who == getpid()) {
    (void)!chdir(g_scratch.c_str());
    remove_tree(last);
  }
  who = getpid();
  last = g_scratch + "/p" + std::to_string(who) + "-" + std::to_string(n++);
  PBT_CHECK(!mkdir(last.c_str(), 0755), "mkdir %s", last.c_str());
  return last;
}
