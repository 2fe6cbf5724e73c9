// B02: kanon::ChunkList against a byte-string model.
#include "pbt.h"
#include <string>
#include <vector>
#include <memory>
#include <set>
#include "kanon/buffer/chunk_list.h"
using namespace kanon;
using pbt::Gen;

static std::string be(uint64_t v, int n)
{
  std::string r(n, 0);
  for (int i = 0; i < n; ++i) r[i] = (char)(v >> (8 * (n - 1 - i)));
  return r;
}

// Contents by iteration; also checks the shape of the list.
static std::string contents(ChunkList &l, const char *op)
{
  std::string r;
  size_t n = 0;
  std::set<const void *> seen;
  for (auto &c : l) {
    ++n;
    PBT_CHECK(n <= l.GetChunkSize(), "after %s: more chunks than GetChunkSize()=%zu", op, (size_t)l.GetChunkSize());
    PBT_CHECK(seen.insert(&c).second, "after %s: a chunk is linked twice", op);
    PBT_CHECK(c.GetMaxSize() == ChunkList::GetSingleChunkSize(), "after %s: chunk size %u", op, c.GetMaxSize());
    PBT_CHECK(c.GetReadableSize() <= c.GetMaxSize() && c.GetWritableSize() <= c.GetMaxSize(), "after %s: chunk indexes out of range", op);
    StringView v = c.ToStringView();
    PBT_CHECK(v.size() == c.GetReadableSize() && v.data() == c.GetReadBegin(), "after %s: chunk view differs", op);
    r.append(v.data(), v.size());
  }
  PBT_CHECK(n == l.GetChunkSize(), "after %s: %zu chunks, GetChunkSize()=%zu", op, n, (size_t)l.GetChunkSize());
  if (n) {
    size_t k = 0;
    Chunk *last = nullptr;
    for (auto it = l.begin(); it != l.end(); ++it, ++k) last = &*it;
    ChunkList const &cl = l;
    size_t n1 = 0, n2 = 0;
    for (auto it = cl.begin(); it != cl.end(); ++it) n1 += it->GetReadableSize();
    for (auto it = l.cbegin(); it != l.cend(); ++it) n2 += it->GetReadableSize();
    PBT_CHECK(n1 == l.GetReadableSize() && n2 == n1, "after %s: the chunks hold %zu / %zu of %zu bytes", op, n1, n2, (size_t)l.GetReadableSize());
    PBT_CHECK(last == l.GetLastChunk() && &*l.begin() == l.GetFirstChunk(), "after %s: first/last chunk wrong", op);
  }
  return r;
}

static void compare(ChunkList &l, std::string const &m, const char *op)
{
  std::string c = contents(l, op);
  const ChunkList &cl = l;
  PBT_CHECK(c.size() == m.size(), "after %s: %zu bytes in the list, model %zu", op, c.size(), m.size());
  if (c != m) {
    size_t i = 0;
    while (c[i] == m[i]) ++i;
    pbt::fail("after %s: byte %zu is %02x, model %02x", op, i, (uint8_t)c[i], (uint8_t)m[i]);
  }
  PBT_CHECK(cl.GetReadableSize() == m.size(), "after %s: GetReadableSize() %zu, really %zu", op, (size_t)cl.GetReadableSize(), m.size());
  PBT_CHECK(cl.IsEmpty() == (cl.GetChunkSize() == 0), "after %s: IsEmpty", op);
  PBT_CHECK(cl.HasReadable() || m.empty(), "after %s: HasReadable", op);
}

static void ops_case(Gen &g)
{
  std::vector<std::unique_ptr<ChunkList>> ls;
  std::vector<std::string> ms;
  size_t nl = g.range(1, 3);
  for (size_t i = 0; i < nl; ++i) {
    ls.emplace_back(new ChunkList);
    ms.emplace_back();
  }
  size_t steps = g.range(1, 40);
  bool big = g.chance(1, 6);
  bool huge = g.chance(1, 500);  // more than 1000 chunks
  bool spliced = false, partial = false, multi = false;
  const char *op = "";
  for (size_t s = 0; s < steps; ++s) {
    size_t i = g.range(0, nl - 1);
    ChunkList &l = *ls[i];
    std::string &m = ms[i];
    size_t used = l.GetChunkSize(), fre = l.GetFreeChunkSize();
    switch (g.weighted({14, 5, 3, 3, 10, 3, 8, 4, 4, 4, 5, 4, 3, 3, 3, 2})) {
      case 0: {
        op = "Append";
        size_t room = l.IsEmpty() ? 4088 : l.GetLastChunk()->GetWritableSize();
        size_t n = g.size(huge ? 5000000 : big ? 30000 : 6000, {0, 1, room, room + 1, room ? room - 1 : 0, room + 4096, 4096, 4088});
        std::string d = g.blob(n);
        NOTE("l%zu.Append(%zu bytes) last chunk has %zu", i, n, room);
        if (g.boolean()) l.Append(StringView(d.data(), d.size()));
        else l.Append(d.data(), d.size());
        m += d;
        size_t added = l.GetChunkSize() - used;
        PBT_CHECK(l.GetChunkSize() >= used, "Append removed chunks");
        PBT_CHECK(l.GetFreeChunkSize() == (fre > added ? fre - added : 0), "Append took %zu chunks, free went from %zu to %zu", added, fre, (size_t)l.GetFreeChunkSize());
        if (added > 1) multi = true;
        break;
      }
      case 1: {
        op = "AppendN";
        uint64_t v = g.u64();
        int k = g.range(0, 3);
        NOTE("l%zu.Append%d(%llx)", i, 8 << k, (unsigned long long)v);
        switch (k) {
          case 0: l.Append8((uint8_t)v); m += be((uint8_t)v, 1); break;
          case 1: l.Append16((uint16_t)v); m += be((uint16_t)v, 2); break;
          case 2: l.Append32((uint32_t)v); m += be((uint32_t)v, 4); break;
          default: l.Append64(v); m += be(v, 8); break;
        }
        break;
      }
      case 2: {
        op = "Prepend";
        if (!l.IsEmpty()) {
          Chunk *f = l.GetFirstChunk();
          if (f->GetMaxSize() - f->GetWritableSize() - f->GetReadableSize() < 8) break;
        }
        std::string d = g.blob(g.range(0, 8));
        NOTE("l%zu.Prepend(%zu bytes)", i, d.size());
        l.Prepend(d.data(), d.size());
        m = d + m;
        break;
      }
      case 3: {
        op = "PrependN";
        if (!l.IsEmpty()) {
          Chunk *f = l.GetFirstChunk();
          if (f->GetMaxSize() - f->GetWritableSize() - f->GetReadableSize() < 8) break;
        }
        uint64_t v = g.u64();
        int k = g.range(0, 3);
        NOTE("l%zu.Prepend%d(%llx)", i, 8 << k, (unsigned long long)v);
        switch (k) {
          case 0: l.Prepend8((uint8_t)v); m = be((uint8_t)v, 1) + m; break;
          case 1: l.Prepend16((uint16_t)v); m = be((uint16_t)v, 2) + m; break;
          case 2: l.Prepend32((uint32_t)v); m = be((uint32_t)v, 4) + m; break;
          default: l.Prepend64(v); m = be(v, 8) + m; break;
        }
        break;
      }
      case 4: {
        op = "AdvanceRead";
        size_t f = l.IsEmpty() ? 0 : l.GetFirstChunk()->GetReadableSize();
        bool all = g.chance(1, 6);
        size_t n = all ? m.size() : std::min<size_t>(m.size(), g.size(m.size(), {0, 1, f, f ? f - 1 : 0, f + 1, m.size()}));
        NOTE("l%zu.AdvanceRead%s(%zu) of %zu, first chunk %zu", i, all ? "All" : "", n, m.size(), f);
        if (all) l.AdvanceReadAll();
        else l.AdvanceRead(n);
        m.erase(0, n);
        PBT_CHECK(l.GetChunkSize() + l.GetFreeChunkSize() == used + fre, "AdvanceRead: %zu used + %zu free chunks became %zu + %zu", used, fre, (size_t)l.GetChunkSize(), (size_t)l.GetFreeChunkSize());
        break;
      }
      case 5: {
        op = "ReadN";
        if (l.IsEmpty()) break;
        int k = g.range(0, 3), n = 1 << k;
        if ((int)l.GetFirstChunk()->GetReadableSize() < n) break;
        bool peek = g.boolean();
        uint64_t e = 0, v = 0;
        for (int q = 0; q < n; ++q) e = e << 8 | (uint8_t)m[q];
        NOTE("l%zu.%s%d", i, peek ? "GetReadBegin" : "Read", n * 8);
        if (peek)
          v = n == 1 ? l.GetReadBegin8() : n == 2 ? l.GetReadBegin16() : n == 4 ? l.GetReadBegin32() : l.GetReadBegin64();
        else {
          v = n == 1 ? l.Read8() : n == 2 ? l.Read16() : n == 4 ? l.Read32() : l.Read64();
          m.erase(0, n);
        }
        PBT_CHECK(v == e, "read of %d-byte integer gives %llx, expected %llx", n, (unsigned long long)v, (unsigned long long)e);
        break;
      }
      case 6: {
        op = "AppendChunkList";
        size_t j = g.range(0, nl - 1);
        if (j == i) break;
        ChunkList &o = *ls[j];
        size_t ou = o.GetChunkSize(), of = o.GetFreeChunkSize();
        NOTE("l%zu.AppendChunkList(l%zu) %zu + %zu bytes in %zu + %zu chunks", i, j, m.size(), ms[j].size(), used, ou);
        l.AppendChunkList(&o);
        if (ou && used) {
          spliced = true;
          if (used + ou >= 3) partial = true;
        }
        m += ms[j];
        ms[j].clear();
        PBT_CHECK(l.GetChunkSize() + l.GetFreeChunkSize() + o.GetChunkSize() + o.GetFreeChunkSize() == used + fre + ou + of, "AppendChunkList lost or invented chunks");
        compare(o, ms[j], "AppendChunkList (source)");
        break;
      }
      case 7: {
        op = "ReserveFreeChunk";
        size_t n = g.range(0, 6);
        NOTE("l%zu.ReserveFreeChunk(%zu)", i, n);
        l.ReserveFreeChunk(n);
        PBT_CHECK(l.GetFreeChunkSize() == std::max(n, fre), "ReserveFreeChunk(%zu): %zu free, were %zu", n, (size_t)l.GetFreeChunkSize(), fre);
        break;
      }
      case 8: {
        op = "ReserveChunk";
        size_t n = g.range(0, 3);
        NOTE("l%zu.ReserveChunk(%zu)", i, n);
        l.ReserveChunk(n);
        if (n > 1) partial = true;
        PBT_CHECK(l.GetChunkSize() == used + n, "ReserveChunk(%zu): %zu chunks, were %zu", n, (size_t)l.GetChunkSize(), used);
        break;
      }
      case 9: {
        op = "ReserveWriteSpace";
        size_t n = g.size(20000, {0, 1, 4096, 4097, 8192});
        NOTE("l%zu.ReserveWriteSpace(%zu)", i, n);
        l.ReserveWriteSpace(n);
        size_t room = 0;
        for (auto &c : l) room += c.GetWritableSize();
        PBT_CHECK(room + l.GetFreeChunkSize() * 4096 >= n, "ReserveWriteSpace(%zu): only %zu bytes in %zu free chunks and %zu in used ones", n, (size_t)l.GetFreeChunkSize() * 4096, (size_t)l.GetFreeChunkSize(), room);
        PBT_CHECK(l.GetChunkSize() == used && l.GetFreeChunkSize() >= fre, "ReserveWriteSpace changed the used chunks");
        break;
      }
      case 10: {
        op = "direct write";
        if (l.IsEmpty()) break;
        Chunk *c = l.GetLastChunk();
        size_t n = g.size(c->GetWritableSize(), {c->GetWritableSize()});
        NOTE("l%zu direct write of %zu bytes into the last chunk (%u writable)", i, n, c->GetWritableSize());
        std::string d = g.blob(c->GetWritableSize());
        memcpy(c->GetWriteBegin(), d.data(), d.size());
        if (n == d.size() && g.boolean()) c->AdvanceWriteAll();
        else c->AdvanceWrite(n);
        m += d.substr(0, n);
        break;
      }
      case 11: {
        op = "Shrink";
        size_t n = g.range(0, 5);
        NOTE("l%zu.Shrink(%zu) free %zu", i, n, fre);
        if (g.boolean()) l.Shrink(n);
        else l.ShrinkChunk(n);
        PBT_CHECK(l.GetFreeChunkSize() == std::min(n, fre), "Shrink(%zu): %zu free chunks, were %zu", n, (size_t)l.GetFreeChunkSize(), fre);
        PBT_CHECK(l.GetChunkSize() == used, "Shrink changed the used chunks");
        break;
      }
      case 12: {
        op = "copy";
        size_t j = g.range(0, nl - 1);
        NOTE("l%zu copied from l%zu", i, j);
        if (g.boolean()) {
          ls[i].reset(new ChunkList(ls[j]->Clone()));
          m = std::string(ms[j]);
        } else {
          l.CopyAssign(*ls[j]);
          m = std::string(ms[j]);
        }
        compare(*ls[j], ms[j], "copy (source)");
        break;
      }
      case 13: {
        op = "swap";
        size_t j = g.range(0, nl - 1);
        NOTE("swap(l%zu, l%zu)", i, j);
        if (g.boolean()) l.swap(*ls[j]);
        else swap(l, *ls[j]);
        std::swap(ms[i], ms[j]);
        compare(*ls[j], ms[j], "swap (other)");
        break;
      }
      case 14: {
        op = "move";
        size_t j = g.range(0, nl - 1);
        if (i == j) break;
        NOTE("l%zu = std::move(l%zu)", i, j);
        if (g.boolean()) {
          std::unique_ptr<ChunkList> n(new ChunkList(std::move(*ls[j])));
          ls[i] = std::move(n);
          ls[j].reset(new ChunkList);
        } else {
          l = std::move(*ls[j]);
          ls[j].reset(new ChunkList);
        }
        m = ms[j];
        ms[j].clear();
        break;
      }
      case 15: {
        op = "drain by chunks";
        // what a descriptor writer does: take the chunks as they are
        std::string out;
        size_t k = 0;
        while (!l.IsEmpty() && k++ < 10000) {
          Chunk *c = l.GetFirstChunk();
          size_t n = c->GetReadableSize();
          out.append(c->GetReadBegin(), n);
          l.AdvanceRead(n);
        }
        NOTE("l%zu drained chunk by chunk", i);
        PBT_CHECK(l.IsEmpty(), "draining chunk by chunk does not end");
        PBT_CHECK(out == m, "draining chunk by chunk yields %zu bytes that differ from the %zu expected", out.size(), m.size());
        m.clear();
        break;
      }
    }
    compare(*ls[i], ms[i], op);
  }
  for (size_t i = 0; i < nl; ++i) compare(*ls[i], ms[i], op);
  pbt::label_if(spliced, "spliced non-empty lists");
  pbt::label_if(partial, "several partially filled chunks");
  pbt::label_if(multi, "append over several chunks");
  if (spliced || multi || partial) pbt::nontrivial();
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.quick = 600000;
  o.thorough = 20000000;
  pbt::suite("ops", "random operation sequences on 1-3 chunk lists against byte-string models", o, ops_case);
  pbt::Config c;
  c.property = "B02";
  c.rule = "the case appended over a chunk boundary, spliced two non-empty lists or had partially filled chunks";
  c.assumptions = {"Prepend is only used where its documented header room exists (8 bytes before the readable part of the first chunk)",
                   "integer reads are only used when the first chunk holds the whole integer (asserted precondition)",
                   "a list is not spliced into itself; a moved-from list is only destroyed"};
  return pbt::run(argc, argv, c);
}
