// B03: descriptor I/O of Buffer and ChunkList over real pipes/sockets with
// injected short counts and errors.
#include "pbt.h"
#include "faultio.h"
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <string>
#include <vector>
#include "kanon/net/buffer.h"
#include "kanon/net/chunk_list.h"
using namespace kanon;
using pbt::Gen;

struct Pair {
  int rd = -1, wr = -1;
  explicit Pair(bool sock)
  {
    int p[2];
    if (sock) {
      if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) abort();
    } else {
      if (pipe2(p, O_NONBLOCK)) abort();
      fcntl(p[0], F_SETPIPE_SZ, 1 << 20);
    }
    rd = p[0];
    wr = p[1];
  }
  ~Pair()
  {
    faultio::clear_all();
    if (rd >= 0) close(rd);
    if (wr >= 0) close(wr);
  }
  std::string drain()
  {
    static char buf[1 << 20];
    std::string r;
    ssize_t n;
    while ((n = ::read(rd, buf, sizeof buf)) > 0) r.append(buf, n);
    return r;
  }
};

static std::string contents(ChunkList &l)
{
  std::string r;
  for (auto &c : l) r.append(c.GetReadBegin(), c.GetReadableSize());
  return r;
}

static void same(std::string const &a, std::string const &b, const char *what)
{
  PBT_CHECK(a.size() == b.size(), "%s: %zu bytes, expected %zu", what, a.size(), b.size());
  if (a != b) {
    size_t i = 0;
    while (a[i] == b[i]) ++i;
    pbt::fail("%s: byte %zu of %zu is %02x, expected %02x", what, i, a.size(), (uint8_t)a[i], (uint8_t)b[i]);
  }
}

static void add(Gen &g, ChunkList &l, std::string &m, bool huge)
{
  switch (g.weighted({6, 3, 2, 2})) {
    case 0: {
      size_t n = g.size(huge ? 60000 : 20000, {1, 4088, 4089, 4096, 8184, 8185});
      std::string d = g.blob(n);
      NOTE("append %zu bytes", n);
      l.Append(d.data(), d.size());
      m += d;
      break;
    }
    case 1: {
      // many small chunks, spliced
      size_t k = huge ? g.size(2600, {1022, 1023, 1024, 1025, 2048, 2049}) : g.range(0, 20);
      size_t per = g.range(0, 40);
      NOTE("splice %zu chunks of about %zu bytes", k, per);
      std::string all = g.blob(k * per);
      for (size_t i = 0; i < k; ++i) {
        ChunkList o;
        if (per) {
          size_t n = 1 + i % per;
          o.Append(all.data() + i * per, n);
          m.append(all.data() + i * per, n);
        } else
          o.ReserveChunk(1);
        l.AppendChunkList(&o);
      }
      break;
    }
    case 2: {
      size_t k = g.range(0, 3);
      NOTE("reserve %zu empty chunks", k);
      l.ReserveChunk(k);
      break;
    }
    default: {
      size_t n = g.size(m.size(), {m.size() / 2});
      NOTE("advance %zu", n);
      l.AdvanceRead(n);
      m.erase(0, n);
    }
  }
}

static void write_case(Gen &g)
{
  Pair p(g.boolean());
  bool huge = g.chance(1, 8);
  ChunkList l;
  std::string m, sent, got;
  size_t adds = g.range(0, 5);
  for (size_t i = 0; i < adds; ++i) add(g, l, m, huge);
  bool faulty = false;
  size_t maxchunks = l.GetChunkSize();
  std::string all = m;
  for (int round = 0; round < 400; ++round) {
    std::vector<faultio::Act> acts;
    bool clean = round > 20;
    int seq_err = 0;
    if (!clean) {
      size_t k = g.range(0, 3);
      for (size_t i = 0; i < k; ++i) {
        faultio::Act a{0, 0};
        if (g.chance(1, 3)) a.err = g.pick({EAGAIN, EINTR, EPIPE, ECONNRESET, EINTR});
        else a.limit = 1 + g.size(70000, {1, 4087, 4088, 4095, 4096});
        acts.push_back(a);
      }
    }
    std::string s;
    for (auto &a : acts) s += a.err ? " err " + std::to_string(a.err) : " limit " + std::to_string(a.limit);
    NOTE("write %zu bytes in %zu chunks;%s", m.size(), (size_t)l.GetChunkSize(), s.c_str());
    faultio::plan_write(p.wr, acts);
    unsigned long before = faultio::injected();
    int saved = 0;
    errno = 0;
    // the two-argument form drops the error
    bool keep = g.chance(7, 8);
    size_t n = keep ? ChunkListWriteFd(l, p.wr, saved) : ChunkListWriteFd(l, p.wr);
    size_t used = faultio::injected() - before;
    faultio::clear(p.wr);
    // the first hard error met in this call
    for (size_t i = 0; i < used; ++i)
      if (acts[i].err && acts[i].err != EINTR) seq_err = acts[i].err;
    if (used) faulty = true;
    std::string part = p.drain();
    PBT_CHECK(n <= m.size(), "reports %zu bytes written, only %zu were there (errno %d)", n, m.size(), saved);
    same(part, m.substr(0, n), "bytes that reached the descriptor");
    if (seq_err && keep) PBT_CHECK(saved == seq_err, "the write failed with errno %d but saved_errno is %d", seq_err, saved);
    else PBT_CHECK(saved == 0 || saved == EINTR || (saved == EAGAIN && n < m.size()), "no write failed but saved_errno is %d (%zu of %zu written)", saved, n, m.size());
    if (!used) PBT_CHECK(n == m.size() || n > 0, "nothing was written although the descriptor was writable");
    same(contents(l), m, "contents of the list after the write");
    l.AdvanceRead(n);
    m.erase(0, n);
    got += part;
    same(contents(l), m, "contents of the list after advancing");
    if (m.empty() && round >= (int)adds) break;
    if (g.chance(1, 6) && round < 10) {
      std::string x;
      size_t k = g.range(1, 6000);
      x = g.blob(k);
      NOTE("append %zu more", k);
      l.Append(x.data(), x.size());
      m += x;
      all += x;
    }
    if (l.GetChunkSize() > maxchunks) maxchunks = l.GetChunkSize();
  }
  same(got, all, "everything received");
  pbt::label_if(faulty, "injected short count or error");
  pbt::label_if(maxchunks > 1024, "more than 1024 chunks");
  pbt::label_if(maxchunks == 1, "single chunk");
  pbt::label_if(maxchunks > 1, "several chunks");
  if (faulty || maxchunks > 1) pbt::nontrivial();
}

static void gone_case(Gen &g)
{
  // The reader is gone: the error is reported and nothing is consumed
  Pair p(g.boolean());
  ChunkList l;
  std::string m;
  size_t k = g.range(1, 4);
  for (size_t i = 0; i < k; ++i) add(g, l, m, false);
  l.Append("x", 1);
  m += 'x';
  close(p.rd);
  p.rd = -1;
  int saved = 0;
  size_t n = ChunkListWriteFd(l, p.wr, saved);
  PBT_CHECK(n == 0 && saved == EPIPE, "writing to a closed pipe gives %zu, saved_errno %d", n, saved);
  same(contents(l), m, "contents after a failed write");
  pbt::nontrivial();
}

static void read_case(Gen &g)
{
  Pair p(g.boolean());
  Buffer b(g.size(3000, {0, 1024}));
  std::string m;
  {
    // bring the buffer into some shape
    size_t n = g.size(3000, {0}), k;
    std::string d = g.blob(n);
    b.Append(d.data(), d.size());
    m = d;
    k = g.size(n, {n});
    b.AdvanceRead(k);
    m.erase(0, k);
    NOTE("buffer: %zu readable, %zu writable", m.size(), (size_t)b.GetWritableSize());
  }
  std::string wire, pending;
  bool faulty = false, over = false, eof = false;
  size_t steps = g.range(1, 12);
  for (size_t s = 0; s < steps; ++s) {
    if (p.wr >= 0 && g.chance(3, 4)) {
      size_t w = b.GetWritableSize();
      size_t n = g.size(g.chance(1, 4) ? 250000 : 5000, {w, w + 1, w ? w - 1 : 0, w + 65536, w + 65535, 65536});
      std::string d = g.blob(n);
      ssize_t k = n ? ::write(p.wr, d.data(), d.size()) : 0;
      if (k < 0) k = 0;
      NOTE("peer writes %zd bytes (writable %zu)", k, w);
      pending.append(d, 0, k);
    }
    if (p.wr >= 0 && g.chance(1, 12)) {
      NOTE("peer closes");
      close(p.wr);
      p.wr = -1;
      eof = true;
    }
    std::vector<faultio::Act> acts;
    if (g.chance(1, 3)) {
      faultio::Act a{0, 0};
      if (g.boolean()) a.err = g.pick({EAGAIN, EINTR, ECONNRESET});
      else a.limit = 1 + g.size(70000, {1, (uint64_t)b.GetWritableSize()});
      acts.push_back(a);
    }
    NOTE("read: %zu pending, %zu writable, fault %d/%zu", pending.size(), (size_t)b.GetWritableSize(), acts.empty() ? 0 : acts[0].err, acts.empty() ? 0 : acts[0].limit);
    faultio::plan_read(p.rd, acts);
    unsigned long before = faultio::injected();
    size_t room = b.GetWritableSize();
    int saved = 0;
    size_t n = BufferReadFromFd(b, p.rd, saved);
    bool used = faultio::injected() > before;
    faultio::clear(p.rd);
    if (used) faulty = true;
    int left = 0;
    ioctl(p.rd, FIONREAD, &left);
    size_t taken = pending.size() - left;
    if (used && acts[0].err && acts[0].err != EINTR) {
      PBT_CHECK(saved == acts[0].err, "read failed with errno %d, saved_errno is %d", acts[0].err, saved);
    } else if (saved) {
      PBT_CHECK((saved == EAGAIN && pending.empty() && p.wr >= 0) || (saved == EINTR && used && acts[0].err == EINTR), "unexpected saved_errno %d", saved);
    } else {
      PBT_CHECK(n == taken, "reports %zu bytes, took %zu from the descriptor", n, taken);
      PBT_CHECK(n > 0 || pending.empty(), "reports end of file with %zu bytes pending", pending.size());
      PBT_CHECK(n > 0 || p.wr < 0, "reports end of file although the peer is open");
    }
    if (saved) PBT_CHECK(taken == 0, "took %zu bytes although it reports errno %d", taken, saved);
    m += pending.substr(0, taken);
    pending.erase(0, taken);
    if (taken > room) over = true;
    same(b.ToStringView().ToString(), m, "contents of the buffer after the read");
    if (g.chance(1, 2)) {
      size_t k = g.size(m.size(), {m.size()});
      NOTE("consume %zu", k);
      b.AdvanceRead(k);
      m.erase(0, k);
    }
  }
  pbt::label_if(faulty, "injected short count or error");
  pbt::label_if(over, "more than the free space arrived");
  pbt::label_if(eof, "end of file");
  if (faulty || over || eof) pbt::nontrivial();
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.quick = 80000;
  o.thorough = 1200000;
  pbt::suite("write", "ChunkListWriteFd of generated chunk lists under injected faults; bytes on the other end against the model", o, write_case);
  o.quick = 4000;
  o.thorough = 100000;
  pbt::suite("gone", "ChunkListWriteFd to a descriptor without a reader", o, gone_case);
  o.quick = 80000;
  o.thorough = 2000000;
  pbt::suite("read", "BufferReadFromFd into buffers of all shapes under injected faults", o, read_case);
  pbt::Config c;
  c.property = "B03";
  c.rule = "a short count or an error was injected, more than one chunk was written, more than the free space was read, or end of file was met";
  c.assumptions = {"faults are short counts >= 1 and the errors EAGAIN, EINTR, EPIPE, ECONNRESET; an interrupted write may be retried or reported"};
  return pbt::run(argc, argv, c);
}
