// B01: kanon::Buffer against a byte-string model.
#include "pbt.h"
#include <string>
#include <vector>
#include <memory>
#include "kanon/buffer/buffer.h"
using namespace kanon;
using pbt::Gen;

static std::string be(uint64_t v, int n)
{
  std::string r(n, 0);
  for (int i = 0; i < n; ++i) r[i] = (char)(v >> (8 * (n - 1 - i)));
  return r;
}

static void compare(Buffer &b, std::string const &m, const char *op)
{
  const Buffer &c = b;
  PBT_CHECK(b.GetReadableSize() == m.size(), "after %s: readable size %zu, model %zu", op, (size_t)b.GetReadableSize(), m.size());
  PBT_CHECK(b.HasReadable() == !m.empty(), "after %s: HasReadable wrong", op);
  StringView v = c.ToStringView();
  PBT_CHECK(v.size() == m.size(), "after %s: view size %zu, model %zu", op, (size_t)v.size(), m.size());
  PBT_CHECK(m.empty() || memcmp(v.data(), m.data(), m.size()) == 0, "after %s: contents %s, model %s", op,
            pbt::quote(v.data(), v.size()).c_str(), pbt::quote(m).c_str());
  PBT_CHECK(m.empty() || (c.GetReadBegin() == v.data() && b.GetReadBegin() == v.data()), "after %s: GetReadBegin differs from view", op);
  PBT_CHECK(b.GetPrependableSize() + b.GetReadableSize() + b.GetWritableSize() == b.GetCapacity(), "after %s: regions do not add up to the capacity", op);
}

static void ops_case(Gen &g)
{
  std::vector<std::unique_ptr<Buffer>> bs;
  std::vector<std::string> ms;
  size_t nb = g.range(1, 3);
  for (size_t i = 0; i < nb; ++i) {
    if (g.boolean()) {
      bs.emplace_back(new Buffer);
      PBT_CHECK(bs[i]->GetWritableSize() >= 1024, "default buffer has %zu writable bytes", (size_t)bs[i]->GetWritableSize());
    } else {
      size_t n = g.size(3000, {0, 8, 16, 1024});
      NOTE("buf%zu = Buffer(%zu)", i, n);
      bs.emplace_back(new Buffer(n));
      PBT_CHECK(bs[i]->GetWritableSize() >= n, "Buffer(%zu) has %zu writable bytes", n, (size_t)bs[i]->GetWritableSize());
    }
    ms.emplace_back();
    PBT_CHECK(bs[i]->GetPrependableSize() >= 8, "new buffer has %zu prependable bytes", (size_t)bs[i]->GetPrependableSize());
  }
  bool prepended = false, moved = false, shrunk = false;
  size_t steps = g.range(1, 60);
  const char *op = "";
  for (size_t s = 0; s < steps; ++s) {
    size_t i = g.range(0, nb - 1);
    Buffer &b = *bs[i];
    std::string &m = ms[i];
    switch (g.weighted({12, 4, 3, 8, 12, 4, 4, 3, 8, 6, 4, 2, 2, 3, 3, 2, 2, 3, 2})) {
      case 0: {
        op = "Append";
        size_t w = b.GetWritableSize(), p = b.GetPrependableSize();
        size_t n = g.size(5000, {w, w + p, w + p - 8 < 100000 ? w + p - 8 : w, 1, 0});
        std::string d = g.blob(n);
        NOTE("buf%zu.Append(%zu bytes) writable=%zu prependable=%zu", i, n, w, p);
        switch (g.range(0, 2)) {
          case 0: b.Append(StringView(d.data(), d.size())); break;
          case 1: b.Append(d.data(), d.size()); break;
          default: b.Append((void const *)d.data(), d.size()); break;
        }
        m += d;
        if (n > w) moved = true;
        break;
      }
      case 1: {
        op = "AppendN";
        uint64_t v = g.u64();
        NOTE("buf%zu.Append integer %llx", i, (unsigned long long)v);
        switch (g.range(0, 3)) {
          case 0: b.Append8((uint8_t)v); m += be((uint8_t)v, 1); break;
          case 1: b.Append16((uint16_t)v); m += be((uint16_t)v, 2); break;
          case 2: b.Append32((uint32_t)v); m += be((uint32_t)v, 4); break;
          default: b.Append64(v); m += be(v, 8); break;
        }
        break;
      }
      case 2: {
        op = "Append self";
        // Views into another buffer
        size_t j = g.range(0, nb - 1);
        if (j == i) break;
        std::string d = ms[j];
        b.Append(bs[j]->ToStringView());
        NOTE("buf%zu.Append(buf%zu view, %zu)", i, j, d.size());
        m += d;
        break;
      }
      case 3: {
        op = "Prepend";
        if (b.GetPrependableSize() < 8) break;
        size_t n = g.chance(1, 4) ? g.range(0, b.GetPrependableSize()) : g.range(0, 8);
        std::string d = g.blob(n);
        NOTE("buf%zu.Prepend(%zu bytes)", i, n);
        if (g.boolean()) b.Prepend(StringView(d.data(), d.size()));
        else b.Prepend((void const *)d.data(), d.size());
        m = d + m;
        if (n) prepended = true;
        break;
      }
      case 4: {
        op = "AdvanceRead";
        size_t n = g.chance(1, 4) ? m.size() : g.size(m.size(), {m.size(), m.size() / 2});
        NOTE("buf%zu.AdvanceRead(%zu)", i, n);
        b.AdvanceRead(n);
        m.erase(0, n);
        break;
      }
      case 5: {
        op = "PrependN";
        if (b.GetPrependableSize() < 8) break;
        uint64_t v = g.u64();
        NOTE("buf%zu.Prepend integer %llx", i, (unsigned long long)v);
        switch (g.range(0, 3)) {
          case 0: b.Prepend8((uint8_t)v); m = be((uint8_t)v, 1) + m; break;
          case 1: b.Prepend16((uint16_t)v); m = be((uint16_t)v, 2) + m; break;
          case 2: b.Prepend32((uint32_t)v); m = be((uint32_t)v, 4) + m; break;
          default: b.Prepend64(v); m = be(v, 8) + m; break;
        }
        prepended = true;
        break;
      }
      case 6: {
        op = "ReadN";
        bool peek = g.boolean();
        int n = 1 << g.range(0, 3);
        if ((int)m.size() < n) break;
        uint64_t e = 0, v = 0;
        for (int k = 0; k < n; ++k) e = e << 8 | (uint8_t)m[k];
        NOTE("buf%zu.%s%d", i, peek ? "GetReadBegin" : "Read", n * 8);
        if (peek)
          v = n == 1 ? b.GetReadBegin8() : n == 2 ? b.GetReadBegin16() : n == 4 ? b.GetReadBegin32() : b.GetReadBegin64();
        else {
          v = n == 1 ? b.Read8() : n == 2 ? b.Read16() : n == 4 ? b.Read32() : b.Read64();
          m.erase(0, n);
        }
        PBT_CHECK(v == e, "read of %d-byte integer gives %llx, expected %llx", n, (unsigned long long)v, (unsigned long long)e);
        break;
      }
      case 7: {
        op = "AdvanceReadN";
        int n = 1 << g.range(0, 3);
        if ((int)m.size() < n) break;
        NOTE("buf%zu.AdvanceRead%d", i, n * 8);
        if (n == 1) b.AdvanceRead8();
        else if (n == 2) b.AdvanceRead16();
        else if (n == 4) b.AdvanceRead32();
        else b.AdvanceRead64();
        m.erase(0, n);
        break;
      }
      case 8: {
        op = "Retrieve";
        size_t n = g.size(m.size(), {m.size()});
        bool all = g.chance(1, 4);
        if (all) n = m.size();
        NOTE("buf%zu.Retrieve(%zu)%s", i, n, all ? " all" : "");
        std::string got;
        if (g.boolean())
          got = all ? b.RetrieveAllAsString() : b.RetrieveAsString(n);
        else {
          auto v = all ? b.RetrieveAllAsVector() : b.RetrieveAsVector(n);
          got.assign(v.begin(), v.end());
        }
        PBT_CHECK(got == m.substr(0, n), "retrieve gives %s, expected %s", pbt::quote(got).c_str(), pbt::quote(m.substr(0, n)).c_str());
        m.erase(0, n);
        break;
      }
      case 9: {
        op = "direct write";
        size_t n = g.size(4000, {b.GetWritableSize(), b.GetWritableSize() + b.GetPrependableSize()});
        NOTE("buf%zu.ReserveWriteSpace(%zu), fill and AdvanceWrite", i, n);
        if (n > b.GetWritableSize()) moved = true;
        b.ReserveWriteSpace(n);
        PBT_CHECK(b.GetWritableSize() >= n, "ReserveWriteSpace(%zu) leaves %zu writable bytes", n, (size_t)b.GetWritableSize());
        compare(b, m, "ReserveWriteSpace");
        std::string d = g.blob(b.GetWritableSize());
        size_t k = g.range(0, n);
        memcpy(b.GetWriteBegin(), d.data(), d.size());  // whole promised space is usable
        b.AdvanceWrite(k);
        m += d.substr(0, k);
        break;
      }
      case 10: {
        op = "Shrink";
        size_t n = g.size(2000, {0, 8});
        size_t cap = b.GetCapacity(), room = b.GetWritableSize() + (b.GetPrependableSize() > 8 ? b.GetPrependableSize() - 8 : 0);
        NOTE("buf%zu.Shrink(%zu) readable=%zu capacity=%zu", i, n, m.size(), cap);
        b.Shrink(n);
        shrunk = true;
        PBT_CHECK(b.GetCapacity() <= cap, "Shrink grew the capacity from %zu to %zu", cap, (size_t)b.GetCapacity());
        PBT_CHECK(b.GetCapacity() <= 8 + m.size() + n || b.GetCapacity() == cap, "Shrink(%zu) with %zu readable leaves capacity %zu", n, m.size(), (size_t)b.GetCapacity());
        PBT_CHECK(b.GetCapacity() <= std::max<size_t>(8 + m.size() + n, m.size() + n), "Shrink(%zu) with %zu readable leaves capacity %zu", n, m.size(), (size_t)b.GetCapacity());
        PBT_CHECK(b.GetWritableSize() >= std::min(n, room), "Shrink(%zu) leaves only %zu writable of %zu", n, (size_t)b.GetWritableSize(), room);
        break;
      }
      case 11: {
        op = "swap";
        size_t j = g.range(0, nb - 1);
        NOTE("buf%zu.swap(buf%zu)", i, j);
        b.swap(*bs[j]);
        std::swap(m, ms[j]);
        compare(*bs[j], ms[j], op);
        break;
      }
      case 12: {
        op = "copy";
        size_t j = g.range(0, nb - 1);
        NOTE("buf%zu = copy of buf%zu (%s)", i, j, "");
        if (g.boolean())
          b = *bs[j];
        else
          bs[i].reset(new Buffer(*bs[j]));
        if (i != j) m = ms[j];
        compare(*bs[j], ms[j], op);
        break;
      }
      case 13: {
        op = "move";
        size_t j = g.range(0, nb - 1);
        if (j == i) break;
        NOTE("buf%zu = move(buf%zu)", i, j);
        if (g.boolean())
          b = std::move(*bs[j]);
        else
          bs[i].reset(new Buffer(std::move(*bs[j])));
        ms[i] = ms[j];
        bs[j].reset(new Buffer);
        ms[j].clear();
        break;
      }
      case 14: {
        op = "Find";
        bool crlf = g.boolean();
        const char *needle = crlf ? "\r\n" : "\n";
        if (g.chance(2, 3)) {
          size_t n = g.range(0, 20);
          std::string d = g.str(n, "ab\r\n\0", 5);
          NOTE("buf%zu.Append(%s)", i, pbt::quote(d).c_str());
          b.Append(StringView(d.data(), d.size()));
          m += d;
        }
        size_t e = m.find(needle);
        if (g.boolean()) {
          StringView v("zz");
          bool r = crlf ? b.FindCrLf(v) : b.FindLf(v);
          NOTE("buf%zu.Find%s(view)", i, crlf ? "CrLf" : "Lf");
          PBT_CHECK(r == (e != std::string::npos), "search for %s returns %d, expected %d", crlf ? "CRLF" : "LF", r, e != std::string::npos);
          if (r) PBT_CHECK(std::string(v.data(), v.size()) == m.substr(0, e), "search gives %s expected %s", pbt::quote(v.data(), v.size()).c_str(), pbt::quote(m.substr(0, e)).c_str());
        } else {
          std::string v = "zz";
          bool r = crlf ? b.FindCrLf(v) : b.FindLf(v);
          NOTE("buf%zu.Find%s(string)", i, crlf ? "CrLf" : "Lf");
          PBT_CHECK(r == (e != std::string::npos), "search for %s returns %d, expected %d", crlf ? "CRLF" : "LF", r, e != std::string::npos);
          if (r) {
            PBT_CHECK(v == m.substr(0, e), "search gives %s expected %s", pbt::quote(v).c_str(), pbt::quote(m.substr(0, e)).c_str());
            m.erase(0, e);
          } else
            PBT_CHECK(v == "zz", "failed search changed the string");
        }
        break;
      }
      case 15: {
        op = "SetWriteIndex";
        size_t k = g.range(0, m.size());
        NOTE("buf%zu.SetWriteIndex(keep %zu)", i, k);
        b.SetWriteIndex(b.GetPrependableSize() + k);
        m.resize(k);
        break;
      }
      case 16: op = "AdvanceAll"; NOTE("buf%zu.AdvanceAll", i); b.AdvanceAll(); m.clear(); break;
      case 17: {
        op = "ReserveWriteSpace";
        size_t n = g.size(20000, {b.GetWritableSize()});
        NOTE("buf%zu.ReserveWriteSpace(%zu)", i, n);
        b.ReserveWriteSpace(n);
        PBT_CHECK(b.GetWritableSize() >= n, "ReserveWriteSpace(%zu) leaves %zu writable bytes", n, (size_t)b.GetWritableSize());
        break;
      }
      case 18: {
        op = "large append";
        size_t n = g.range(0, 70000);
        std::string d = g.blob(n);
        NOTE("buf%zu.Append(%zu bytes)", i, n);
        b.Append(d.data(), d.size());
        m += d;
        break;
      }
    }
    compare(*bs[i], ms[i], op);
  }
  for (size_t i = 0; i < nb; ++i) compare(*bs[i], ms[i], "end");
  pbt::label_if(prepended, "with prepend");
  pbt::label_if(moved, "with growth or move");
  pbt::label_if(shrunk, "with shrink");
  if (steps >= 5 && (prepended || moved || shrunk)) pbt::nontrivial();
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.quick = 500000;
  o.thorough = 4000000;
  pbt::suite("ops", "operation sequences over 1-3 buffers against std::string", o, ops_case);
  pbt::Config c;
  c.property = "B01";
  c.rule = "a case is a random sequence of 1-60 operations on 1-3 buffers; non-trivial: at least 5 operations including a prepend, a shrink or a growth/move of the contents";
  c.assumptions = {"preconditions asserted by the API are respected (prepend needs 8 prependable bytes, advances stay within the readable/writable size)"};
  return pbt::run(argc, argv, c);
}
