// P01: the protobuf codec frames messages losslessly and rejects corrupt frames.
#include "connkit.h"
#include "loud.h"
#include "pbframe.h"
#include "p01.pb.h"
#include "kanon/protobuf/protobuf_codec.h"
#include "kanon/protobuf/chunk_stream.h"
#include "kanon/protobuf/protobuf_codec2.h"
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/stubs/logging.h>
#include <set>
using namespace ck;
namespace gp = google::protobuf;
using kanon::protobuf::ChunkStream;
using kanon::protobuf::internal::GenericPbCodec;
typedef decltype(((GenericPbCodec *)nullptr)->Parse(nullptr, 0, *(gp::Message *)nullptr)) Err;

static const uint32_t kMax = 1u << 26;
// The length header at p: 0 incomplete, -1 invalid, otherwise its size.
static int read_head(bool v2, const char *p, size_t n, uint32_t &len)
{
  if (!v2) {
    if (n < 4) return 0;
    len = rd32(p);
    return 4;
  }
  uint64_t v = 0;
  for (size_t i = 0; i < 5; ++i) {
    if (i == n) return 0;
    v |= (uint64_t)(p[i] & 127) << (7 * i);
    if (!(p[i] & 128)) {
      len = (uint32_t)v;
      return v >> 32 ? -1 : (int)i + 1;
    }
  }
  return -1;
}

// ---- messages ----
static std::string text(Gen &g, size_t n)
{
  std::string s = g.blob(n);
  for (char &c : s) c = (char)('a' + (unsigned char)c % 26);
  return s;
}
static size_t field_size(Gen &g)
{
  switch (g.weighted({12, 3, 2, 1})) {
    case 0: return g.small(40);
    case 1: return g.size(700, {127, 128, 255});
    case 2: return g.size(9000, {4070, 4080, 4084, 4088, 4092, 4096, 4100, 8192});
    default: return g.small(60000);
  }
}
static void fill(Gen &g, gp::Message &m, int depth, bool complete)
{
  const gp::Descriptor *d = m.GetDescriptor();
  const gp::Reflection *r = m.GetReflection();
  bool many = g.chance(1, 4);
  for (int i = 0; i < d->field_count(); ++i) {
    const gp::FieldDescriptor *f = d->field(i);
    bool req = f->is_required();
    if (req && complete) {
    } else if (!g.chance(many ? 2 : 1, many ? 3 : 5))
      continue;
    unsigned n = f->is_repeated() ? (unsigned)g.range(1, 5) : 1;
    if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE && !depth) continue;
    while (n--) {
#define PUT(NAME, V) (f->is_repeated() ? r->Add##NAME(&m, f, V) : r->Set##NAME(&m, f, V))
      switch (f->cpp_type()) {
        case gp::FieldDescriptor::CPPTYPE_INT32: PUT(Int32, (int32_t)g.u64()); break;
        case gp::FieldDescriptor::CPPTYPE_INT64: PUT(Int64, (int64_t)g.u64()); break;
        case gp::FieldDescriptor::CPPTYPE_UINT32: PUT(UInt32, (uint32_t)g.u64()); break;
        case gp::FieldDescriptor::CPPTYPE_UINT64: PUT(UInt64, g.u64()); break;
        case gp::FieldDescriptor::CPPTYPE_DOUBLE: PUT(Double, g.real()); break;
        case gp::FieldDescriptor::CPPTYPE_BOOL: PUT(Bool, g.boolean()); break;
        case gp::FieldDescriptor::CPPTYPE_ENUM: PUT(EnumValue, g.pick({0, 1, 7, 1, 7, 3})); break;
        case gp::FieldDescriptor::CPPTYPE_STRING: PUT(String, f->type() == gp::FieldDescriptor::TYPE_BYTES ? g.blob(field_size(g)) : text(g, field_size(g))); break;
        case gp::FieldDescriptor::CPPTYPE_MESSAGE: fill(g, f->is_repeated() ? *r->AddMessage(&m, f) : *r->MutableMessage(&m, f), depth - 1, complete); break;
        default: break;
      }
    }
  }
  // fields the receiver may not know
  if (g.chance(1, 8)) {
    auto *u = r->MutableUnknownFields(&m);
    u->AddVarint(150, g.u64());
    if (g.boolean()) u->AddLengthDelimited(151, g.blob(g.small(300)));
  }
}
static const gp::Message *prototype(unsigned i)
{
  switch (i) {
    case 0: return &p01::Free::default_instance();
    case 1: return &p01::Strict::default_instance();
    default: return &p01::Empty::default_instance();
  }
}
static std::unique_ptr<gp::Message> make(Gen &g, const gp::Message *proto, bool complete = true)
{
  std::unique_ptr<gp::Message> m(proto->New());
  fill(g, *m, 3, complete);
  return m;
}
static std::string make_tag(Gen &g)
{
  switch (g.weighted({6, 2, 1, 1})) {
    case 0: return text(g, 1 + g.small(12));
    case 1: return g.blob(1 + g.small(60));
    case 2: return "";
    default: return g.blob(1 + g.size(9000, {4096, 4088, 4095, 8192}));
  }
}
static std::string bytes_of(gp::Message const &m) { return m.SerializePartialAsString(); }

static void begin(Gen &g)
{
  begin_case();
  gp::SetLogHandler(nullptr);
  logging(g.chance(1, 12));
}

// The codecs' own error callback: the error it logs.
static std::string g_heard;
static bool g_hear;
static void hear(Gen &g)
{
  g_heard.clear();
  g_hear = g.chance(1, 4);
  if (!g_hear) return;
  NOTE("the error log is read");
  Logger::SetOutputCallback([](char const *d, size_t n) {
    std::string s(d, n);
    size_t p = s.find("error callback of ");
    if (p == s.npos || !g_heard.empty()) return;
    p = s.find(": ", p);
    if (p == s.npos) return;
    for (char ch : s.substr(p)) g_heard += (char)tolower((unsigned char)ch);
  });
  Logger::SetLogLevel(Logger::KANON_LL_ERROR);
}
static void heard(std::vector<int> const &kinds, bool v2)
{
  if (!g_hear || g_heard.empty()) return;
  bool ok = false;
  for (int k : kinds) ok |= g_heard.find(k == Err::kInvalidLength ? v2 ? "size" : "length" : k == Err::kInvalidMessage ? "message" : k == Err::kInvalidChecksum ? "checksum" : "parse") != std::string::npos;
  PBT_CHECK(ok, "the codec logs another error: %s", g_heard.c_str());
  pbt::label("error text read");
}

// What a decoder has to do with a stream.
struct Judge {
  const gp::Message *proto;
  std::string tag, stream;
  size_t at = 0;                                // start of the first frame not consumed
  bool v2 = false;                              // ProtobufCodec2
  uint64_t max = kMax + 4ull;                   // limit of a whole frame
  bool dead = false;                            // an erroneous frame was reached
  bool reset = false;                           // the decoder has thrown a broken stream away
  std::vector<int> kinds;                       // errors allowed for it
  std::vector<std::string> expect;              // payloads, in order
  size_t given = 0, delivered = 0, errors = 0;  // observed
  TimeStamp stamp;
  const void *conn = nullptr;

  void advance()
  {
    while (!dead && given - at >= (v2 ? 1 : 8)) {
      uint32_t n = 0;
      int h = read_head(v2, stream.data() + at, given - at, n);
      if (h == 0) return;
      if (h < 0 || n < 4 + tag.size() || (uint64_t)n + h >= max) {
        dead = true;
        kinds = {h < 0 ? Err::kInvalidMessage : Err::kInvalidLength};
        pbt::label("invalid length");
        return;
      }
      if (given - at < h + (size_t)n) return;
      std::string body = stream.substr(at + h, n - 4);
      bool sum = ref_xxh32(body) == rd32(stream.data() + at + h + n - 4), tagok = body.compare(0, tag.size(), tag) == 0;
      if (!sum) kinds.push_back(Err::kInvalidChecksum), pbt::label("invalid checksum");
      if (!tagok) kinds.push_back(Err::kInvalidMessage), pbt::label_if(sum, "invalid tag");
      if (kinds.empty()) {
        std::unique_ptr<gp::Message> m(proto->New());
        if (v2)   // the user's callback parses
          expect.push_back(body.substr(tag.size()));
        else if (m->ParseFromArray(body.data() + tag.size(), (int)(body.size() - tag.size())))
          expect.push_back(bytes_of(*m));
        else
          kinds.push_back(Err::kParseError), pbt::label("payload does not parse");
      }
      if (!kinds.empty()) {
        dead = true;
        return;
      }
      at += h + n;
    }
  }
  void got(const void *c, gp::Message const *m, TimeStamp t)
  {
    NOTE("  [message of %zu bytes]", m->ByteSizeLong());
    got(c, bytes_of(*m), t);
    PBT_CHECK(m->GetDescriptor() == proto->GetDescriptor(), "the message is a %s", m->GetDescriptor()->name().c_str());
  }
  void got(const void *c, std::string const &bytes, TimeStamp t)
  {
    if (reset) return;
    PBT_CHECK(delivered < expect.size(), "a message is delivered although %s", dead ? "the frame is erroneous" : "no further frame is complete");
    PBT_CHECK(bytes == expect[delivered], "message %zu is not the one that was sent", delivered);
    PBT_CHECK(t == stamp, "message %zu comes with another receive time", delivered);
    PBT_CHECK(c == conn, "message %zu comes with another connection", delivered);
    ++delivered;
  }
  void error(const void *c, int e)
  {
    NOTE("  [error %d]", e);
    if (reset) return;
    bool ok = false;
    for (int k : kinds) ok |= k == e;
    if (!dead && !v2 && given - at >= 4) {
      // an invalid length may be reported before the frame could be complete
      uint32_t n = rd32(stream.data() + at);
      ok = e == Err::kInvalidLength && (n < 4 + tag.size() || n >= kMax);
    }
    PBT_CHECK(ok, "error %d is reported, %s", e, dead ? "this is not what is wrong with the frame" : "nothing is wrong");
    PBT_CHECK(c == conn, "the error comes with another connection");
    PBT_CHECK(delivered == expect.size(), "the error is reported before message %zu", delivered);
    ++errors;
  }
  void check(size_t left)
  {
    if (dead && left == 0) reset = true;
    if (reset) return;
    PBT_CHECK(delivered == expect.size(), "%zu of %zu complete messages are delivered", delivered, expect.size());
    if (dead)
      PBT_CHECK(errors, "the erroneous frame is not reported");
    else
      PBT_CHECK(left == given - at, "%zu bytes are left in the buffer, %zu belong to an incomplete frame", left, given - at);
  }
};

// Frames, most of them valid; returns the stream.
static std::string make_stream(Gen &g, std::string const &tag, const gp::Message *proto, bool corrupt, unsigned frames, bool v2 = false, uint64_t max = kMax)
{
  std::string s;
  unsigned bad = corrupt ? (unsigned)g.range(0, frames - 1) : frames;
  for (unsigned i = 0; i < frames; ++i) {
    std::string p = bytes_of(*make(g, proto)), f = frame(tag, p, v2);
    if (i == bad) {
      std::string t;
      unsigned how = (unsigned)g.range(0, 9);
      if (tag.empty() && (how == 2 || how == 9)) how = 0;
      switch (how) {
        case 0: {   // one bit
          size_t k = g.range(v2 ? 0 : 4, f.size() - 1), b = g.range(0, 7);
          f[k] ^= (char)(1 << b);
          NOTE("bit %zu of byte %zu flipped", b, k);
          break;
        }
        case 1: {   // the length alone
          uint32_t n = g.pick<uint32_t>({0, 1, 3, 4, (uint32_t)tag.size() + 3, (uint32_t)tag.size() + 4, (uint32_t)max - 1, (uint32_t)max, (uint32_t)max + 1, (uint32_t)max - 3, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffcu});
          uint32_t was = 0;
          int h = read_head(v2, f.data(), f.size(), was);
          if (g.boolean()) n = was + (uint32_t)g.irange(-8, 8);
          f.replace(0, h, head(v2, n));
          if (v2 && g.chance(1, 3)) f.insert(0, g.range(1, 6), (char)0xff);
          NOTE("length replaced by %u", n);
          break;
        }
        case 2: {   // another tag, all else right
          t = tag;
          switch (g.range(0, 3)) {
            case 0: t[g.range(0, t.size() - 1)] ^= (char)(1 << g.range(0, 7)); break;
            case 1: t.pop_back(); break;
            case 2: t += (char)g.range(0, 255); break;
            default: t.back() ^= 1; 
          }
          f = frame(t, p, v2);
          NOTE("another tag");
          break;
        }
        case 3: {   // a payload that is cut or altered, with a right checksum
          if (p.size() && g.boolean())
            p.resize(g.range(0, p.size() - 1));
          else if (p.size())
            p[g.range(0, p.size() - 1)] ^= (char)(1 << g.range(0, 7));
          else
            p = g.blob(1 + g.small(30));
          f = frame(tag, p, v2);
          NOTE("damaged payload");
          break;
        }
        case 4:   // any payload
          f = frame(tag, g.blob(g.small(200)), v2);
          NOTE("random payload");
          break;
        case 5:   // incomplete message
          f = frame(tag, bytes_of(*make(g, proto, false)), v2);
          NOTE("incomplete message");
          break;
        case 6:   // checksum in the other byte order
          std::swap(f[f.size() - 1], f[f.size() - 4]);
          std::swap(f[f.size() - 2], f[f.size() - 3]);
          NOTE("checksum swapped");
          break;
        case 7:   // checksum of the payload only
          f.replace(f.size() - 4, 4, be32(ref_xxh32(p)));
          NOTE("checksum of the payload only");
          break;
        case 8: {   // a byte lost or doubled
          size_t k = g.range(0, f.size() - 1);
          if (g.boolean())
            f.erase(k, 1);
          else
            f.insert(k, 1, f[k]);
          NOTE("byte %zu lost or doubled", k);
          break;
        }
        default:   // too short for its tag
          f = head(v2, 4 + (uint32_t)g.range(0, tag.size() - 1)) + g.blob(g.small(60));
          NOTE("too short for the tag");
      }
    }
    s += f;
  }
  return s;
}

static char const my_tag[] = "my-tag";

// Streams into OnMessage() in any segmentation.
static void decode_case(Gen &g)
{
  begin(g);
  Judge j;
  bool typed = g.chance(1, 3);
  unsigned kind = typed ? 0 : (unsigned)g.weighted({4, 3, 1});
  j.proto = prototype(kind);
  j.tag = typed ? my_tag : make_tag(g);
  bool corrupt = g.chance(1, 2);
  unsigned frames = (unsigned)g.range(1, 6);
  j.stream = make_stream(g, j.tag, j.proto, corrupt, frames);
  NOTE("%u frames of %s, tag of %zu bytes, %zu bytes", frames, j.proto->GetDescriptor()->name().c_str(), j.tag.size(), j.stream.size());
  std::unique_ptr<GenericPbCodec> gen;
  std::unique_ptr<kanon::protobuf::ProtobufCodec<p01::Free, my_tag>> con;
  auto on_msg = [&](TcpConnectionPtr const &c, gp::Message *m, TimeStamp t) { j.got(c.get(), m, t); };
  auto on_err = [&](TcpConnectionPtr const &c, Err e) { j.error(c.get(), e); };
  if (typed) {
    con.reset(new kanon::protobuf::ProtobufCodec<p01::Free, my_tag>);
    con->SetMessageCallback([&](TcpConnectionPtr const &c, p01::Free *m, TimeStamp t) { on_msg(c, m, t); });
    con->SetErrorCallback(on_err);
  } else {
    gen.reset(new GenericPbCodec(j.proto, j.tag));
    gen->SetMessageCallback(on_msg);
    gen->SetErrorCallback(on_err);
  }
  Buffer buf;
  unsigned mode = g.weighted({4, 2, 2});
  unsigned calls = 0;
  while (j.given < j.stream.size()) {
    size_t rest = j.stream.size() - j.given, k = rest;
    if (mode == 0) k = std::min<size_t>(rest, 1 + g.small(rest));
    if (mode == 1) k = std::min<size_t>(rest, 1 + g.small(12));
    if (calls > 400) k = rest;
    j.stamp = TimeStamp((int64_t)g.u64() >> 8);
    buf.Append(j.stream.data() + j.given, k);
    j.given += k;
    NOTE("%zu bytes arrive", k);
    j.advance();
    if (typed)
      con->OnMessage(nullptr, buf, j.stamp);
    else
      gen->OnMessage(nullptr, buf, j.stamp);
    j.check(buf.GetReadableSize());
    ++calls;
    if (j.dead && g.chance(1, 3)) break;
  }
  pbt::label_if(j.expect.size() > 1, "several messages");
  pbt::label_if(j.stream.size() > 8192, "more than 8 kB");
  if (calls > 1 && (j.expect.size() || j.dead)) pbt::nontrivial();
}

// Parse() and the serialisers on buffers without slack.
static void flat_case(Gen &g)
{
  begin(g);
  Judge j;
  j.proto = prototype((unsigned)g.weighted({4, 3, 1}));
  j.tag = make_tag(g);
  GenericPbCodec codec(j.proto, j.tag);
  // parse one frame without anything around it
  bool corrupt = g.chance(2, 3);
  j.stream = make_stream(g, j.tag, j.proto, corrupt, 1);
  if (j.stream.size() >= 8) {
    uint32_t n = rd32(j.stream.data());
    if (n >= 4 + j.tag.size() && j.stream.size() >= 4 + (size_t)n) {
      j.given = 4 + (size_t)n;
      j.advance();
      std::unique_ptr<char[]> exact(new char[n]);
      memcpy(exact.get(), j.stream.data() + 4, n);
      std::unique_ptr<gp::Message> m(j.proto->New());
      Err e = codec.Parse(exact.get(), n, *m);
      if (j.dead) {
        bool ok = false;
        for (int k : j.kinds) ok |= k == e;
        PBT_CHECK(ok, "parsing the frame gives %d", (int)e);
      } else {
        PBT_CHECK(e == Err::kNoError, "parsing a valid frame gives error %d", (int)e);
        PBT_CHECK(bytes_of(*m) == j.expect[0], "the parsed message is not the one that was sent");
      }
      pbt::nontrivial();
    }
  }
  // serialise into a flat buffer, behind other bytes
  auto m = make(g, j.proto);
  std::string want = bytes_of(*m), pre = g.blob(g.small(3000));
  {
    Buffer b;
    b.Append(pre.data(), pre.size());
    b.AdvanceRead(g.range(0, pre.size()));
    std::string before(b.GetReadBegin(), b.GetReadableSize());
    uint32_t n = codec.SerializeToBuffer(*m, b);
    PBT_CHECK(n == want.size(), "serialising %zu bytes returns %u", want.size(), n);
    PBT_CHECK(std::string(b.GetReadBegin(), b.GetReadableSize()) == before + want, "the buffer does not hold its old bytes and the serialised message");
    std::unique_ptr<char[]> exact(new char[want.size()]);
    memcpy(exact.get(), b.GetReadBegin() + before.size(), want.size());
    std::unique_ptr<gp::Message> r(j.proto->New());
    PBT_CHECK(codec.ParseFromBuffer(exact.get(), (int)want.size(), *r), "the serialised message does not parse");
    PBT_CHECK(bytes_of(*r) == want, "the message changes on its way through a buffer");
    if (want.size()) {
      exact[want.size() - 1] ^= 0x80;
      std::unique_ptr<gp::Message> x(j.proto->New()), y(j.proto->New());
      PBT_CHECK(codec.ParseFromBuffer(exact.get(), (int)want.size(), *x) == y->ParseFromArray(exact.get(), (int)want.size()), "parsing a damaged message gives another result");
    }
  }
  {
    ChunkList l;
    l.Append(pre.data(), pre.size());
    uint32_t sum = 0, n = codec.SerializeToBuffer(*m, l, sum);
    PBT_CHECK(n == want.size(), "serialising %zu bytes into a chunk list returns %u", want.size(), n);
    PBT_CHECK(sum == ref_xxh32(want), "the checksum of the serialised message is wrong");
    std::string all;
    for (auto &c : l) all.append(c.GetReadBegin(), c.GetReadableSize());
    PBT_CHECK(all == pre + want, "the chunk list does not hold its old bytes and the serialised message");
  }
  pbt::label_if(want.size() > 4096, "message larger than a chunk");
}

// The output stream over a chunk list: any use the ZeroCopyOutputStream contract allows.
static void stream_case(Gen &g)
{
  begin(g);
  ChunkStream s;
  std::string model;
  char *last = nullptr;
  size_t last_at = 0, last_n = 0, ctr = 0;
  if (g.chance(2, 3)) {
    model = g.blob(g.size(9000, {4096, 4095, 8192}));
    s.chunk_list.Append(model);
    NOTE("%zu bytes before the stream is used", model.size());
  }
  unsigned n = (unsigned)g.range(1, 25), nexts = 0;
  while (n--) {
    switch (g.weighted({5, 3, 1, 1, 2})) {
      case 0: {
        void *d = nullptr;
        int sz = -1;
        PBT_CHECK(s.Next(&d, &sz), "Next() fails");
        PBT_CHECK(sz >= 0 && (sz == 0 || d), "Next() gives %d bytes", sz);
        NOTE("Next(): %d bytes", sz);
        last = (char *)d;
        last_n = (size_t)sz;
        last_at = model.size();
        uint64_t seed = ++ctr;
        for (size_t i = 0; i < last_n; ++i) last[i] = (char)(pbt::mix(seed) >> (i % 8 * 8)) ^ (char)i;
        model.append(last, last_n);
        ++nexts;
        break;
      }
      case 1:
        if (last) {
          size_t k = g.chance(1, 4) ? last_n : g.chance(1, 4) ? 0 : (size_t)g.range(0, last_n);
          NOTE("BackUp(%zu)", k);
          s.BackUp((int)k);
          model.resize(model.size() - k);
          last = nullptr;
          pbt::label_if(k && k == last_n, "a whole buffer given back");
        }
        break;
      case 2: {
        std::string x = g.blob(g.size(9000, {4096, 1}));
        NOTE("WriteAliasedRaw(%zu)", x.size());
        PBT_CHECK(s.WriteAliasedRaw(x.data(), (int)x.size()), "WriteAliasedRaw() fails");
        model += x;
        last = nullptr;
        break;
      }
      case 3: {
        // a message through protobuf's own writer
        auto m = make(g, prototype((unsigned)g.range(0, 2)));
        NOTE("a message of %zu bytes", m->ByteSizeLong());
        PBT_CHECK(m->SerializePartialToZeroCopyStream(&s), "serialising fails");
        model += bytes_of(*m);
        last = nullptr;
        pbt::label("message written");
        break;
      }
      default: {
        // a coded stream, with and without aliasing
        gp::io::CodedOutputStream c(&s);
        if (g.boolean()) c.EnableAliasing(true);
        std::string x = g.blob(g.size(9000, {4096, 16, 17})), y = g.blob(g.small(100));
        NOTE("a coded stream writes %zu and %zu bytes", x.size(), y.size());
        gp::io::StringOutputStream so(&model);
        gp::io::CodedOutputStream ref(&so);
        ref.WriteVarint32((uint32_t)x.size()), c.WriteVarint32((uint32_t)x.size());
        ref.WriteRaw(y.data(), (int)y.size()), c.WriteRaw(y.data(), (int)y.size());
        ref.WriteRaw(x.data(), (int)x.size()), c.WriteRawMaybeAliased(x.data(), (int)x.size());
        ref.WriteString(y), c.WriteString(y);
        last = nullptr;
      }
    }
    PBT_CHECK((uint64_t)s.ByteCount() == model.size(), "ByteCount() is %lld after %zu bytes", (long long)s.ByteCount(), model.size());
  }
  std::string all;
  for (auto &c : s.chunk_list) all.append(c.GetReadBegin(), c.GetReadableSize());
  PBT_CHECK(all.size() == model.size(), "the chunk list holds %zu bytes, %zu were written", all.size(), model.size());
  size_t i = 0;
  while (i < all.size() && all[i] == model[i]) ++i;
  PBT_CHECK(i == all.size(), "byte %zu of %zu in the chunk list is wrong", i, all.size());
  PBT_CHECK(s.chunk_list.GetReadableSize() == model.size(), "the size of the chunk list is %zu", (size_t)s.chunk_list.GetReadableSize());
  if (nexts > 1 && model.size() > 4096) pbt::nontrivial();
}

// Send() over a connection: the bytes at the peer.
static void wire_any(Gen &g, bool v2)
{
  begin(g);
  Conn c(g, 0);
  configure(c);
  c.tcp = g.chance(1, 8);
  c.faults = g.chance(1, 3);
  c.no_message_cb = true;
  const gp::Message *proto = prototype((unsigned)g.weighted({4, 3, 1}));
  bool typed = !v2 && g.chance(1, 4);
  if (typed) proto = prototype(0);
  std::string tag = typed ? my_tag : make_tag(g);
  GenericPbCodec codec(proto, tag);
  kanon::protobuf::ProtobufCodec2 codec2(tag, 1 << 20);
  kanon::protobuf::ProtobufCodec<p01::Free, my_tag> con;
  std::vector<std::string> sent[2];
  std::set<std::pair<size_t, size_t>> states = {{0, 0}};   // how many of each sender have arrived
  std::string wire;
  size_t frames = 0;
  c.describe("sends messages");
  auto feed = [&](size_t max) {
    static char b[65536];
    while (max) {
      ssize_t r = ::read(c.peer, b, std::min(max, sizeof b));
      if (r <= 0) break;
      wire.append(b, r);
      max -= r;
      ++c.progress;
    }
    size_t at = 0;
    while (wire.size() > at) {
      uint32_t len = 0;
      int h = read_head(v2, wire.data() + at, wire.size() - at, len);
      if (h == 0) break;
      PBT_CHECK(h > 0, "frame %zu at the peer has an invalid length", frames);
      size_t n = h + (size_t)len;
      bool match = false;
      std::set<std::pair<size_t, size_t>> next;
      for (auto &st : states)
        for (int k = 0; k < 2; ++k) {
          size_t i = k ? st.second : st.first;
          if (i == sent[k].size() || sent[k][i].size() != n) continue;
          size_t have = std::min(n, wire.size() - at);
          if (wire.compare(at, have, sent[k][i], 0, have)) continue;
          match = true;
          next.insert({st.first + !k, st.second + k});
        }
      PBT_CHECK(match, "frame %zu at the peer (%zu bytes) is not the message that was sent", frames, n);
      if (wire.size() - at < n) break;
      states.swap(next);
      at += n;
      ++frames;
    }
    wire.erase(0, at);
  };
  c.step = [&](Conn &c) {
    switch (g.weighted({6, 2, 2})) {
      case 0: {
        unsigned n = (unsigned)g.range(1, 4);
        bool other = g.chance(1, 4);
        unsigned how2 = v2 ? (unsigned)g.range(0, 3) : 0;
        while (n--) {
          auto m = make(g, proto, v2 || !g.chance(1, 10));
          sent[other].push_back(frame(tag, bytes_of(*m), v2));
          NOTE("send a message of %zu bytes%s", m->ByteSizeLong(), other ? " from another thread" : "");
          auto call = [&] {
            if (v2) {
              switch (how2) {
                case 0: codec2.Send(c.conn, m.get()); break;
                case 1: codec2.Send(c.conn, *m); break;
                case 2: codec2.Send(c.conn.get(), m.get()); break;
                default: codec2.Send(c.conn.get(), *m);
              }
            } else if (typed)
              con.Send(c.conn, m.get());
            else
              codec.Send(c.conn, m.get());
          };
          if (other)
            c.elsewhere(call);
          else
            call();
        }
        break;
      }
      case 1: feed(1 + g.small(100000)); break;
      default: c.plan_faults();
    }
  };
  c.settle_op = [&](Conn &) { feed(1 << 20); };
  c.settled = [&](Conn &) { return frames == sent[0].size() + sent[1].size(); };
  c.stuck = [&](Conn &) { pbt::fail("%zu of %zu messages arrive at the peer", frames, sent[0].size() + sent[1].size()); };
  c.run((unsigned)g.range(1, 8));
  PBT_CHECK(wire.empty(), "%zu bytes too much arrive at the peer", wire.size());
  if (frames > 1) pbt::nontrivial();
  c.finish();
}

static void wire_case(Gen &g) { wire_any(g, false); }
static void wire2_case(Gen &g) { wire_any(g, true); }

// A connection whose input goes to the codec; the error callback is the codec's own.
static void conn_case(Gen &g)
{
  begin(g);
  Conn c(g, 0);
  configure(c);
  hear(g);
  c.own_log = true;
  c.tcp = g.chance(1, 8);
  c.faults = g.chance(1, 3);
  Judge j;
  j.proto = prototype((unsigned)g.weighted({4, 3, 1}));
  j.tag = make_tag(g);
  GenericPbCodec codec(j.proto, j.tag);
  bool corrupt = g.chance(1, 2);
  j.stream = make_stream(g, j.tag, j.proto, corrupt, (unsigned)g.range(1, 6));
  c.describe("receives messages");
  size_t sent = 0;
  codec.SetMessageCallback([&](TcpConnectionPtr const &cc, gp::Message *m, TimeStamp t) { j.got(cc.get(), m, t); });
  bool set = false;
  c.no_message_cb = true;
  auto feed = [&](size_t k) {
    if (c.peer < 0) return;
    ssize_t r = ::write(c.peer, j.stream.data() + sent, std::min(k, j.stream.size() - sent));
    if (r > 0) sent += r, ++c.progress;
  };
  bool eof = false;
  c.step = [&](Conn &c) {
    if (!set) {
      set = true;
      j.conn = c.conn.get();
      c.conn->SetMessageCallback([&](TcpConnectionPtr const &cc, Buffer &b, TimeStamp t) {
        j.stamp = t;
        j.given = j.at + b.GetReadableSize();
        j.advance();
        codec.OnMessage(cc, b, t);
        if (j.dead) j.errors = 1;   // the codec's own callback: its effect is the end of the connection
        j.check(b.GetReadableSize());
        ++c.progress;
      });
    }
    if (g.chance(1, 4)) c.plan_faults();
    feed(1 + g.small(30000));
  };
  c.settle_op = [&](Conn &c) {
    if (!j.dead) feed(1 << 20);
    char b[64];
    if (!eof && ::read(c.peer, b, sizeof b) == 0) {
      eof = true;
      ++c.progress;
    }
  };
  c.settled = [&](Conn &) { return j.dead ? eof : sent == j.stream.size() && j.given == sent; };
  c.stuck = [&](Conn &) { pbt::fail(j.dead ? "the connection is not shut down after an erroneous frame" : "%zu of %zu bytes reach the codec", j.given, sent); };
  c.run((unsigned)g.range(1, 10));
  PBT_CHECK(j.dead || !eof, "the connection is shut down without an error");
  if (j.dead) heard(j.kinds, false);
  if (j.expect.size() > 1 || j.dead) pbt::nontrivial();
  c.finish();
}

// The same for ProtobufCodec2, which leaves parsing to the user.
static void conn2_case(Gen &g)
{
  begin(g);
  Conn c(g, 0);
  configure(c);
  c.tcp = g.chance(1, 8);
  c.faults = g.chance(1, 3);
  Judge j;
  j.v2 = true;
  j.proto = prototype((unsigned)g.weighted({4, 3, 1}));
  j.tag = make_tag(g);
  bool corrupt = g.chance(1, 2);
  unsigned frames = (unsigned)g.range(1, 6);
  // a limit that all valid frames keep, often just so
  j.max = 1 << 20;
  j.stream = make_stream(g, j.tag, j.proto, corrupt, frames, true, j.max);
  if (g.chance(2, 3)) {
    uint64_t largest = 0;
    for (size_t at = 0; at < j.stream.size();) {
      uint32_t n = 0;
      int h = read_head(true, j.stream.data() + at, j.stream.size() - at, n);
      if (h <= 0 || (uint64_t)n + h >= j.max) break;
      largest = std::max<uint64_t>(largest, (uint64_t)n + h);
      at += h + n;
    }
    j.max = std::max<uint64_t>(16, largest + g.pick<int>({1, 1, 2, 0, 100}));
  }
  kanon::protobuf::ProtobufCodec2 codec(j.tag, j.max);
  NOTE("%u frames, tag of %zu bytes, limit %llu, %zu bytes", frames, j.tag.size(), (unsigned long long)j.max, j.stream.size());
  c.describe("receives messages");
  size_t sent = 0;
  // the codec has seen at most what the peer has written
  auto look = [&] {
    j.given = sent;
    j.advance();
    if (j.dead && j.delivered == j.expect.size() && j.given - j.at >= j.max) j.reset = true;
  };
  codec.SetMessageCallback([&](TcpConnectionPtr const &cc, Buffer &b, size_t n, TimeStamp t) {
    PBT_CHECK(n <= b.GetReadableSize(), "a payload of %zu bytes is reported, %zu are readable", n, (size_t)b.GetReadableSize());
    std::string p(b.GetReadBegin(), n);
    NOTE("  [payload of %zu bytes]", n);
    look();
    j.stamp = t;
    j.got(cc.get(), p, t);
    size_t before = b.GetReadableSize();
    std::unique_ptr<gp::Message> m(j.proto->New()), ref(j.proto->New());
    switch (g.range(0, 4)) {
      case 0: break;   // reads it in place
      case 1: b.AdvanceRead(g.range(0, n)); break;
      case 2: {
        bool ok = kanon::protobuf::ParsePartialFromBuffer(m.get(), n, &b);
        PBT_CHECK(ok == ref->ParsePartialFromArray(p.data(), (int)n), "ParsePartialFromBuffer() gives %d", (int)ok);
        PBT_CHECK(before - b.GetReadableSize() == (ok ? n : 0), "ParsePartialFromBuffer() consumes %zu bytes", (size_t)(before - b.GetReadableSize()));
        if (ok) PBT_CHECK(bytes_of(*m) == bytes_of(*ref), "ParsePartialFromBuffer() gives another message");
        break;
      }
      default: {
        bool ok = kanon::protobuf::ParseFromBuffer(m.get(), n, &b);
        PBT_CHECK(ok == ref->ParseFromArray(p.data(), (int)n), "ParseFromBuffer() gives %d", (int)ok);
        PBT_CHECK(before - b.GetReadableSize() == (ok ? n : 0), "ParseFromBuffer() consumes %zu bytes", (size_t)(before - b.GetReadableSize()));
        if (ok) PBT_CHECK(bytes_of(*m) == bytes_of(*ref), "ParseFromBuffer() gives another message");
      }
    }
  });
  bool own = g.boolean();
  if (!own) hear(g);
  c.own_log = true;
  bool set = false, eof = false;
  if (own)
    codec.SetErrorCallback([&](TcpConnectionPtr const &cc, auto e) {
      typedef decltype(e) E;
      look();
      if (!j.errors) j.reset = false;
      ++c.progress;
      j.error(cc.get(), e == E::E_INVALID_CHECKSUM ? Err::kInvalidChecksum : e == E::E_INVALID_MESSAGE ? Err::kInvalidMessage : e == E::E_INVALID_SIZE_HEADER ? Err::kInvalidLength : Err::kNoError);
    });
  c.no_message_cb = true;
  auto feed = [&](size_t k) {
    if (c.peer < 0) return;
    k = std::min(k, j.stream.size() - sent);
    if (!k) return;
    ssize_t r = ::write(c.peer, j.stream.data() + sent, k);
    if (r > 0) {
      sent += r, ++c.progress;
      NOTE("the peer writes %zd bytes", r);
    }
  };
  c.step = [&](Conn &c) {
    if (!set) {
      set = true;
      j.conn = c.conn.get();
      codec.SetUpConnection(c.conn);
    }
    if (g.chance(1, 4)) c.plan_faults();
    size_t k = 1 + g.small(30000);
    if (g.chance(1, 3) && sent < j.stream.size()) {
      // stop around the end of a length header
      uint32_t n;
      int h = read_head(true, j.stream.data() + sent, j.stream.size() - sent, n);
      if (h > 0) k = (size_t)h + (size_t)g.range(0, 1) * n;
    }
    feed(k);
  };
  c.settle_op = [&](Conn &c) {
    look();
    if (!j.dead) feed(1 << 20);
    char b[64];
    if (!eof && ::read(c.peer, b, sizeof b) == 0) {
      eof = true;
      ++c.progress;
    }
  };
  c.settled = [&](Conn &) { look(); return j.delivered >= j.expect.size() && (j.dead ? own ? j.errors > 0 : eof : sent == j.stream.size()); };
  c.stuck = [&](Conn &) {
    PBT_CHECK(j.delivered >= j.expect.size(), "%zu of %zu complete messages are delivered", j.delivered, j.expect.size());
    pbt::fail(own ? "the erroneous frame is not reported" : "the connection is not shut down after an erroneous frame");
  };
  c.run((unsigned)g.range(1, 10));
  PBT_CHECK(j.dead || !eof, "the connection is shut down without an error");
  pbt::label("codec 2");
  if (!own && j.dead) heard(j.kinds, true);
  pbt::label_if(j.stream.size() > j.max && j.expect.size() > 1, "more than the size limit in several messages");
  if (j.expect.size() > 1 || j.dead) pbt::nontrivial();
  c.finish();
}

// Streams and frames around the size limit.
static void large_case(Gen &g)
{
  begin(g);
  logging(false);
  std::string tag = "big";
  const gp::Message *proto = prototype(0);
  GenericPbCodec codec(proto, tag);
  size_t got = 0, errs = 0;
  std::vector<size_t> sizes;
  codec.SetMessageCallback([&](TcpConnectionPtr const &, gp::Message *m, TimeStamp) {
    PBT_CHECK(got < sizes.size(), "a message too much is delivered");
    size_t n = static_cast<p01::Free *>(m)->blob().size();
    PBT_CHECK(n == sizes[got], "message %zu has %zu bytes instead of %zu", got, n, sizes[got]);
    ++got;
  });
  codec.SetErrorCallback([&](TcpConnectionPtr const &, Err e) {
    ++errs;
    PBT_CHECK(e == Err::kInvalidLength, "error %d is reported", (int)e);
  });
  bool over = g.chance(1, 4);
  std::string stream;
  auto add = [&](size_t payload) {
    p01::Free m;
    m.set_blob(std::string(payload - 5, 'x'));   // tag, four bytes of length (payload > 2 MB)
    while (m.ByteSizeLong() < payload) m.mutable_blob()->push_back('x');
    if (m.ByteSizeLong() > payload) m.mutable_blob()->resize(m.blob().size() - (m.ByteSizeLong() - payload));
    sizes.push_back(m.blob().size());
    stream += frame(tag, bytes_of(m));
  };
  const size_t top = kMax - 1 - 4 - tag.size();   // the largest payload
  switch (g.range(0, 2)) {
    case 0:   // the largest frames
      add(top - g.small(20));
      add(100);
      NOTE("a frame of %zu bytes, then a small one", stream.size());
      break;
    case 1: {   // many frames in one arrival
      unsigned k = (unsigned)g.range(3, 40);
      while (stream.size() < kMax + 100) add(kMax / k + 1 + g.small(1000));
      NOTE("%zu frames of %zu bytes together", sizes.size(), stream.size());
      break;
    }
    default: add(top);
  }
  if (over) {
    stream += be32(kMax + (uint32_t)g.small(100));
    stream += std::string(g.boolean() ? 100 : kMax, 'y');
    NOTE("then a frame that is too large");
  }
  Buffer b;
  size_t at = 0;
  bool whole = g.boolean();
  while (at < stream.size()) {
    size_t k = whole ? stream.size() : std::min<size_t>(stream.size() - at, 65536 + g.pick<size_t>({0, 1 << 20, 5 << 20, 64 << 20}));
    b.Append(stream.data() + at, k);
    at += k;
    codec.OnMessage(nullptr, b, TimeStamp(1));
  }
  PBT_CHECK(got == sizes.size(), "%zu of %zu messages are delivered", got, sizes.size());
  PBT_CHECK(over ? errs > 0 : errs == 0, "%zu errors are reported", errs);
  if (!over) PBT_CHECK(b.GetReadableSize() == 0, "%zu bytes are left", (size_t)b.GetReadableSize());
  pbt::nontrivial();
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "P01";
  cfg.rule = "at least one message or one erroneous frame went through in several pieces (decode), a frame was parsed (flat), several buffers were handed out (stream), or two messages crossed a connection";
  cfg.assumptions = {"the messages are generated from a schema of the harness compiled with the installed protobuf 3.21.12",
                     "once an erroneous frame is reached, nothing later in that stream is delivered"};
  pbt::SuiteOpt o;
  o.quick = 45000;
  pbt::suite("decode", "streams of valid and erroneous frames in any segmentation", o, decode_case);
  o.quick = 45000;
  pbt::suite("flat", "one frame and one message in buffers without slack", o, flat_case);
  o.quick = 45000;
  pbt::suite("stream", "the output stream over a chunk list", o, stream_case);
  o.quick = 13000;
  pbt::suite("wire", "messages sent over a connection", o, wire_case);
  o.quick = 13000;
  pbt::suite("conn", "a connection whose input goes to the codec", o, conn_case);
  pbt::suite("wire2", "messages sent over a connection by ProtobufCodec2", o, wire2_case);
  pbt::suite("conn2", "a connection whose input goes to ProtobufCodec2", o, conn2_case);
  o.quick = 48;
  o.hang_s = 60;
  pbt::suite("large", "frames and arrivals around the size limit", o, large_case);
  return pbt::run(argc, argv, cfg);
}
