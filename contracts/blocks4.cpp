// Contracts of the MDF 4 block storage (the Read and Write functions of the
// blocks): what a user configures is what a reader finds in the file, the file
// is a sequence of aligned, non-overlapping blocks whose headers tell their
// real type and length, and writing a block changes nothing stored earlier.
#include "vp.h"
#include <map>
#include "memfile.h"
#include "mdf/mdfhelper.h"
#include "ca4block.h"
#include "cc4block.h"
#include "cg4block.h"
#include "ch4block.h"
#include "cn4block.h"
#include "dg4block.h"
#include "ev4block.h"
#include "fh4block.h"
#include "hd4block.h"
#include "si4block.h"
#include "tx4block.h"
using namespace mdf;
using namespace mdf::detail;
namespace {
// A text as the library stores it: no zero byte inside, no blank at its ends.
std::string AnyText(unsigned len, const char* name) {
  const auto b = vp_vec(len, name);
  for (unsigned i = 0; i < len; ++i) vp_assume(b[i] > 0x20);
  return std::string(b.begin(), b.end());
}
bool SameD(double a, double b) { return vp_dbits(a) == vp_dbits(b); }
uint64_t At(const MemFile& f, uint64_t pos, unsigned n) {
  uint64_t v = 0;
  for (unsigned i = n; i-- > 0;) v = (v << 8) | f.data[pos + i];
  return v;
}
// The file after its head is a sequence of blocks: aligned, well formed header,
// length that reaches to the next block.
void CheckFile(const MemFile& f, uint64_t start = 64) {
  uint64_t pos = start;
  unsigned blocks = 0;
  while (pos < f.data.size()) {
    vp_assert(pos % 8 == 0, "blocks are aligned to 8 bytes");
    vp_assert(pos + 24 <= f.data.size() && f.data[pos] == '#' && f.data[pos + 1] == '#', "a block starts with its identification");
    const uint64_t len = vp_concrete_u64(At(f, pos + 8, 8));
    const uint64_t links = vp_concrete_u64(At(f, pos + 16, 8));
    vp_assert(len >= 24 + 8 * links && pos + len <= f.data.size(), "the block length covers header and links and lies inside the file");
    pos += (len + 7) / 8 * 8;
    ++blocks;
  }
  vp_assert(blocks > 0, "blocks were written");
}
// Links of a block point to the start of a block of the expected type, or are 0.
bool IsBlock(const MemFile& f, int64_t link, const char* type) {
  if (link < 64 || link % 8 != 0 || static_cast<uint64_t>(link) + 24 > f.data.size()) return false;
  return f.data[link] == '#' && f.data[link + 1] == '#' && f.data[link + 2] == static_cast<uint8_t>(type[0]) &&
         f.data[link + 3] == static_cast<uint8_t>(type[1]);
}
// Everything stored so far, except where the library is told to patch it.
struct Before {
  std::vector<uint8_t> data;
  explicit Before(const MemFile& f) : data(f.data) {}
  bool Kept(const MemFile& f) const { return f.data.size() >= data.size() && memcmp(f.data.data(), data.data(), data.size()) == 0; }
};
template <typename B> void ReadAt(B& block, const MdfBlock& from, MemFile& f) {
  f.pubseekpos(from.FilePosition());
  block.Read(f);
}
}  // namespace

VP_CONTRACT(b4_source) {
  MemFile f(64 + 8 * vp_choose(2, "head"));
  const uint64_t start = f.data.size();
  Si4Block si;
  ISourceInformation& s = si;
  const std::string name = AnyText(static_cast<unsigned>(vp_choose(4, "name")), "name");
  const std::string path = AnyText(static_cast<unsigned>(vp_choose(3, "path")), "path");
  const uint8_t type = vp_nd_u8("type"), bus = vp_nd_u8("bus"), flags = vp_nd_u8("flags");
  s.Name(name);
  s.Path(path);
  s.Type(static_cast<SourceType>(type));
  s.Bus(static_cast<BusType>(bus));
  s.Flags(flags);
  const uint64_t bytes = si.Write(f);
  CheckFile(f, start);
  vp_assert(IsBlock(f, si.FilePosition(), "SI") && bytes == At(f, si.FilePosition() + 8, 8), "source block stored");
  Si4Block r;
  ReadAt(r, si, f);
  const ISourceInformation& t = r;
  vp_assert(t.Name() == name && t.Path() == path, "source name and path");
  vp_assert(static_cast<uint8_t>(t.Type()) == type && static_cast<uint8_t>(t.Bus()) == bus && t.Flags() == flags, "source type, bus and flags");
  const Before b(f);
  si.Write(f);
  vp_assert(b.Kept(f) && b.data.size() == f.data.size(), "writing again stores nothing twice");
  vp_reach("source");
}

VP_CONTRACT(b4_conversion) {
  MemFile f;
  Cc4Block cc;
  IChannelConversion& c = cc;
  static const ConversionType kind[12] = {ConversionType::NoConversion, ConversionType::Linear, ConversionType::Rational, ConversionType::Algebraic,
      ConversionType::ValueToValueInterpolation, ConversionType::ValueToValue, ConversionType::ValueRangeToValue, ConversionType::ValueToText,
      ConversionType::ValueRangeToText, ConversionType::TextToValue, ConversionType::TextToTranslation, ConversionType::BitfieldToText};
  const ConversionType t = kind[vp_choose(12, "kind")];
  const unsigned n = static_cast<unsigned>(vp_choose(4, "parameters"));
  const unsigned refs = static_cast<unsigned>(vp_choose(4, "references"));
  const bool inverse = vp_choose(2, "inverse") != 0;
  c.Type(t);
  double p[3];
  uint64_t u[3];
  static const char* pn[3] = {"p0", "p1", "p2"};
  for (unsigned i = 0; i < 3; ++i) {
    u[i] = vp_nd_u64(pn[i]);
    memcpy(&p[i], &u[i], 8);
  }
  const bool bits = t == ConversionType::BitfieldToText;
  for (unsigned i = 0; i < n; ++i) {
    if (bits) c.ParameterUint(static_cast<uint16_t>(i), u[i]);
    else c.Parameter(static_cast<uint16_t>(i), p[i]);
  }
  const bool hole = refs == 3;  // a reference that is not set
  std::string text[3];
  static const char* tn[3] = {"t0", "t1", "t2"};
  for (unsigned i = 0; i < refs; ++i) {
    if (hole && i == 1) continue;
    text[i] = AnyText(1 + i, tn[i]);
    vp_assume(static_cast<uint8_t>(text[i][0]) != '<');
    c.Reference(static_cast<uint16_t>(i), text[i]);
  }
  const std::string name = AnyText(static_cast<unsigned>(vp_choose(2, "name")) * 2, "name");
  c.Name(name);
  const uint16_t flags = vp_nd_u16("flags");
  const uint8_t dec = vp_nd_u8("decimals");
  const double lo = vp_nd_double("low"), hi = vp_nd_double("high");
  c.Flags(flags);
  c.Decimals(dec);
  c.Range(lo, hi);
  if (inverse) {
    auto* inv = c.CreateInverse();
    inv->Type(ConversionType::Linear);
    inv->Parameter(0, p[0]);
    inv->Parameter(1, p[1]);
  }
  const uint64_t bytes = cc.Write(f);
  CheckFile(f);
  vp_assert(IsBlock(f, cc.FilePosition(), "CC") && bytes == At(f, cc.FilePosition() + 8, 8), "conversion block stored");
  Cc4Block r;
  ReadAt(r, cc, f);
  const IChannelConversion& q = r;
  vp_assert(q.Type() == t && q.Name() == name, "conversion type and name");
  vp_assert(q.Flags() == c.Flags() && q.IsDecimalUsed() && q.Decimals() == dec, "conversion flags and decimals");
  vp_assert(q.Range().has_value() == ((flags & CcFlag::RangeValid) != 0 || hi > lo), "range valid");
  if (q.Range()) vp_assert(SameD(q.Range()->first, lo) && SameD(q.Range()->second, hi), "conversion range");
  vp_assert(q.NofParameters() == n && q.NofReferences() == refs, "number of parameters and references");
  for (unsigned i = 0; i < n; ++i) {
    if (bits) vp_assert(q.ParameterUint(static_cast<uint16_t>(i)) == u[i], "bit field parameter");
    else vp_assert(SameD(q.Parameter(static_cast<uint16_t>(i)), p[i]), "parameter value");
  }
  for (unsigned i = 0; i < refs; ++i) {
    if (hole && i == 1) vp_assert(r.References()[i] == nullptr, "unset reference");
    else vp_assert(q.Reference(static_cast<uint16_t>(i)) == text[i], "reference text");
  }
  vp_assert((q.Inverse() != nullptr) == inverse, "inverse conversion");
  if (inverse) {
    vp_assert(q.Inverse()->Type() == ConversionType::Linear && SameD(q.Inverse()->Parameter(0), p[0]) && SameD(q.Inverse()->Parameter(1), p[1]), "inverse parameters");
    vp_reach("inverse");
  }
  vp_reach("conversion");
}

VP_CONTRACT(b4_channel) {
  MemFile f;
  Cn4Block cn;
  IChannel& c = cn;
  const std::string name = AnyText(static_cast<unsigned>(vp_choose(3, "name")) * 2, "name");
  const bool source = vp_choose(2, "source") != 0, conversion = vp_choose(2, "conversion") != 0;
  const unsigned parts = static_cast<unsigned>(vp_choose(3, "parts"));
  const uint8_t type = vp_nd_u8("type"), sync = vp_nd_u8("sync"), data_type = vp_nd_u8("datatype"), dec = vp_nd_u8("decimals");
  const uint8_t bit = vp_nd_u8("bitoffset");
  const uint32_t byte = vp_nd_u32("byteoffset"), count = vp_nd_u32("bitcount"), flags = vp_nd_u32("flags") & ~CnFlag::DefaultX;
  const double v[6] = {vp_nd_double("rmin"), vp_nd_double("rmax"), vp_nd_double("lmin"), vp_nd_double("lmax"), vp_nd_double("emin"), vp_nd_double("emax")};
  vp_assume(type <= 6 && sync <= 4 && data_type <= 16);
  c.Name(name);
  c.Type(static_cast<ChannelType>(type));
  c.Sync(static_cast<ChannelSyncType>(sync));
  c.DataType(static_cast<ChannelDataType>(data_type));
  c.BitOffset(bit);
  c.ByteOffset(byte);
  c.BitCount(count);
  c.Flags(flags);
  const unsigned some = static_cast<unsigned>(vp_choose(5, "valid"));
  if (some == 1) c.Decimals(dec);
  if (some == 2) c.Range(v[0], v[1]);
  if (some == 3) c.Limit(v[2], v[3]);
  if (some == 4) c.ExtLimit(v[4], v[5]);
  if (source) {
    auto* s = c.CreateSourceInformation();
    s->Name("src");
    s->Bus(BusType::Can);
  }
  if (conversion) {
    auto* q = c.CreateChannelConversion();
    q->Type(ConversionType::Linear);
    q->Parameter(0, v[0]);
    q->Parameter(1, v[1]);
  }
  for (unsigned i = 0; i < parts; ++i) {
    auto* p = c.CreateChannelComposition();
    p->Name(i == 0 ? "p0" : "p1");
    p->ByteOffset(byte + i);
    p->BitCount(8 + i);
  }
  const uint32_t stored = c.Flags();
  const uint64_t bytes = cn.Write(f);
  CheckFile(f);
  vp_assert(IsBlock(f, cn.FilePosition(), "CN") && bytes == At(f, cn.FilePosition() + 8, 8), "channel block stored");
  Cn4Block r;
  ReadAt(r, cn, f);
  const IChannel& q = r;
  vp_assert(q.Name() == name, "channel name");
  vp_assert(static_cast<uint8_t>(q.Type()) == type && static_cast<uint8_t>(q.Sync()) == sync && static_cast<uint8_t>(q.DataType()) == data_type, "channel, sync and data type");
  vp_assert(q.BitOffset() == bit && q.ByteOffset() == byte && q.BitCount() == count, "channel position and size");
  vp_assert(q.Flags() == stored, "channel flags");
  if (some == 1) vp_assert(q.IsDecimalUsed() && q.Decimals() == dec, "decimals");
  if (some == 2) vp_assert(q.Range() && SameD(q.Range()->first, v[0]) && SameD(q.Range()->second, v[1]), "range");
  if (some == 3) vp_assert(q.Limit() && SameD(q.Limit()->first, v[2]) && SameD(q.Limit()->second, v[3]), "limits");
  if (some == 4) vp_assert(q.ExtLimit() && SameD(q.ExtLimit()->first, v[4]) && SameD(q.ExtLimit()->second, v[5]), "extended limits");
  if (some == 0 && (stored & CnFlag::RangeValid) == 0) vp_assert(!q.Range(), "no range");
  vp_assert((q.SourceInformation() != nullptr) == source && (q.ChannelConversion() != nullptr) == conversion, "source and conversion");
  if (source) vp_assert(q.SourceInformation()->Name() == "src" && q.SourceInformation()->Bus() == BusType::Can, "source content");
  if (conversion) {
    const auto* cc = q.ChannelConversion();
    vp_assert(cc->Type() == ConversionType::Linear && SameD(cc->Parameter(0), v[0]) && SameD(cc->Parameter(1), v[1]), "conversion content");
  }
  const auto list = q.ChannelCompositions();
  vp_assert(list.size() == parts, "number of composed channels");
  for (unsigned i = 0; i < parts && i < list.size(); ++i) {
    vp_assert(list[i]->Name() == (i == 0 ? "p0" : "p1") && list[i]->ByteOffset() == byte + i && list[i]->BitCount() == 8 + i, "composed channel");
    vp_reach("composition");
  }
  vp_reach("channel");
}

// Channel group: written once, then updated with the number of samples and the
// size of its variable length data as the writer does while measuring.
VP_CONTRACT(b4_group) {
  MemFile f(64 + vp_choose(2, "head") * 4);
  Cg4Block cg;
  IChannelGroup& g = cg;
  const uint64_t start = (f.data.size() + 7) / 8 * 8;
  const std::string name = AnyText(static_cast<unsigned>(vp_choose(3, "name")) * 3, "name");
  const unsigned channels = static_cast<unsigned>(vp_choose(4, "channels"));
  const bool source = vp_choose(2, "source") != 0;
  const bool vlsd = vp_choose(2, "vlsd") != 0;
  const uint64_t id = vp_nd_u64("id"), samples = vp_nd_u64("samples"), more = vp_nd_u64("more");
  const uint16_t flags = static_cast<uint16_t>((vp_nd_u16("flags") & ~(CgFlag::RemoteMaster | CgFlag::VlsdChannel)) | (vlsd ? CgFlag::VlsdChannel : 0));
  const uint16_t sep = vp_nd_u16("separator");
  const uint32_t data = vp_nd_u32("databytes"), invalid = vp_nd_u32("invalidbytes");
  const uint64_t size = vp_nd_u64("vlsdbytes");
  g.Name(name);
  g.RecordId(id);
  g.NofSamples(samples);
  g.Flags(flags);
  g.PathSeparator(static_cast<char16_t>(sep));
  cg.nof_data_bytes_ = data;
  cg.nof_invalid_bytes_ = invalid;
  static const char* const cname[3] = {"a", "bb", "ccc"};
  for (unsigned i = 0; i < channels; ++i) {
    auto* c = g.CreateChannel(std::string_view(cname[i]));
    c->BitCount(vp_choose(1, "x") + 8 * (i + 1));
    c->Type(i == 0 ? ChannelType::Master : ChannelType::FixedLength);
  }
  if (source) g.CreateSourceInformation()->Name("src");
  cg.Write(f);
  CheckFile(f, start);
  const Before before(f);
  const int64_t at = cg.FilePosition();
  // The writer counts the samples and rewrites the group.
  g.NofSamples(more);
  if (vlsd) cg.UpdateVlsdSize(size);
  cg.Write(f);
  vp_assert(cg.FilePosition() == at && f.data.size() == before.data.size(), "updating a group adds nothing to the file");
  CheckFile(f, start);
  // only the counters of the group itself change
  bool other = true;
  for (uint64_t i = 0; i < before.data.size(); ++i) {
    const bool counter = (i >= static_cast<uint64_t>(at) + 80 && i < static_cast<uint64_t>(at) + 88) || (i >= static_cast<uint64_t>(at) + 96 && i < static_cast<uint64_t>(at) + 104);
    if (!counter) other = other && f.data[i] == before.data[i];
  }
  vp_assert(other, "updating a group changes only its counters");
  Cg4Block r;
  ReadAt(r, cg, f);
  r.ReadCnList(f);
  const IChannelGroup& q = r;
  vp_assert(q.Name() == name && q.RecordId() == id && q.NofSamples() == more, "group name, record id and number of samples");
  vp_assert(q.Flags() == flags && static_cast<uint16_t>(q.PathSeparator()) == sep, "group flags and path separator");
  if (vlsd) {
    const uint64_t total = (static_cast<uint64_t>(invalid) << 32) + data + size;
    vp_assert((static_cast<uint64_t>(r.NofInvalidBytes()) << 32) + r.NofDataBytes() == total, "total size of the variable length data");
    vp_reach("vlsd");
  } else {
    vp_assert(r.NofDataBytes() == data && r.NofInvalidBytes() == invalid, "record size");
  }
  vp_assert((q.SourceInformation() != nullptr) == source, "source of the group");
  if (source) vp_assert(q.SourceInformation()->Name() == "src", "source name");
  const auto list = q.Channels();
  vp_assert(list.size() == channels, "number of channels");
  for (unsigned i = 0; i < channels && i < list.size(); ++i)
    vp_assert(list[i]->Name() == cname[i] && list[i]->BitCount() == 8 * (i + 1) && (list[i]->Type() == ChannelType::Master) == (i == 0), "channels in order");
  vp_reach("group");
}

VP_CONTRACT(b4_event) {
  MemFile f;
  Ev4Block ev;
  IEvent& e = ev;
  const std::string name = AnyText(static_cast<unsigned>(vp_choose(3, "name")) * 3, "name");
  const std::string group = AnyText(static_cast<unsigned>(vp_choose(3, "groupname")) * 2, "group");
  const uint8_t type = vp_nd_u8("type"), sync = vp_nd_u8("sync"), range = vp_nd_u8("range"), cause = vp_nd_u8("cause");
  const uint16_t creator = vp_nd_u16("creator");
  const int64_t value = static_cast<int64_t>(vp_nd_u64("value"));
  const double factor = vp_nd_double("factor");
  e.Name(name);
  e.GroupName(group);
  e.Type(static_cast<EventType>(type));
  e.Sync(static_cast<SyncType>(sync));
  e.Range(static_cast<RangeType>(range));
  e.Cause(static_cast<EventCause>(cause));
  e.CreatorIndex(creator);
  e.SyncValue(value);
  e.SyncFactor(factor);
  const uint64_t bytes = ev.Write(f);
  CheckFile(f);
  vp_assert(IsBlock(f, ev.FilePosition(), "EV") && bytes == At(f, ev.FilePosition() + 8, 8), "event block stored");
  Ev4Block r;
  ReadAt(r, ev, f);
  const IEvent& q = r;
  vp_assert(q.Name() == name && q.GroupName() == group, "event name and group name");
  vp_assert(static_cast<uint8_t>(q.Type()) == type && static_cast<uint8_t>(q.Sync()) == sync && static_cast<uint8_t>(q.Range()) == range &&
            static_cast<uint8_t>(q.Cause()) == cause, "event type, sync, range and cause");
  vp_assert(q.CreatorIndex() == creator && q.SyncValue() == value && SameD(q.SyncFactor(), factor), "event creator and sync value");
  vp_reach("event");
}

VP_CONTRACT(b4_array) {
  MemFile f;
  Ca4Block ca;
  IChannelArray& a = ca;
  const unsigned dims = static_cast<unsigned>(vp_choose(4, "dimensions"));
  const unsigned storage = static_cast<unsigned>(vp_choose(3, "storage"));
  const uint32_t some = static_cast<uint32_t>(vp_choose(4, "axes"));
  const uint8_t type = vp_nd_u8("type");
  const uint32_t flags = (vp_nd_u32("flags") & ~(CaFlag::DynamicSize | CaFlag::InputQuantity | CaFlag::OutputQuantity | CaFlag::ComparisonQuantity | CaFlag::Axis | CaFlag::FixedAxis)) |
      ((some & 1) != 0 ? CaFlag::Axis : 0) | ((some & 2) != 0 ? CaFlag::FixedAxis : 0) | (some == 0 && vp_choose(2, "quantities") != 0 ? (CaFlag::DynamicSize | CaFlag::InputQuantity | CaFlag::OutputQuantity | CaFlag::ComparisonQuantity) : 0);
  std::vector<uint64_t> shape;
  for (unsigned i = 0; i < dims; ++i) shape.push_back(i + 1);
  a.Type(static_cast<ArrayType>(type));
  a.Storage(static_cast<ArrayStorage>(storage));
  a.Flags(flags);
  a.Shape(shape);
  a.ResizeArrays();
  unsigned sum = 0, product = 1;
  for (unsigned i = 0; i < dims; ++i) {
    sum += i + 1;
    product *= i + 1;
  }
  std::vector<double> axis;
  std::vector<uint64_t> cycles;
  static const char* const an[6] = {"a0", "a1", "a2", "a3", "a4", "a5"};
  static const char* const cn[6] = {"c0", "c1", "c2", "c3", "c4", "c5"};
  if ((flags & CaFlag::FixedAxis) != 0) {
    for (unsigned i = 0; i < sum; ++i) axis.push_back(vp_nd_double(an[i]));
    a.AxisValues() = axis;
  }
  if (storage != 0) {
    for (unsigned i = 0; i < product; ++i) cycles.push_back(vp_nd_u64(cn[i]));
    a.CycleCounts() = cycles;
  }
  const uint64_t bytes = ca.Write(f);
  CheckFile(f);
  vp_assert(IsBlock(f, ca.FilePosition(), "CA") && bytes == At(f, ca.FilePosition() + 8, 8), "array block stored");
  Ca4Block r;
  ReadAt(r, ca, f);
  const IChannelArray& q = r;
  vp_assert(static_cast<uint8_t>(q.Type()) == type && static_cast<unsigned>(q.Storage()) == storage && q.Flags() == flags, "array type, storage and flags");
  vp_assert(q.Shape() == shape && q.NofArrayValues() == product && q.SumOfArray() == sum, "shape of the array");
  vp_assert(q.AxisValues().size() == axis.size() && q.CycleCounts().size() == cycles.size(), "number of axis values and cycle counts");
  for (unsigned i = 0; i < axis.size(); ++i) vp_assert(SameD(q.AxisValues()[i], axis[i]), "axis value");
  for (unsigned i = 0; i < cycles.size(); ++i) vp_assert(q.CycleCounts()[i] == cycles[i], "cycle count");
  vp_reach("array");
  if (!axis.empty()) vp_reach("axis");
}

// A whole file structure: header, file history, data groups, channel groups,
// channels, channel hierarchies and events with their references.  It is
// written, changed, written again and read by the functions the readers use.
VP_CONTRACT(b4_header) {
  MemFile f(64);
  Hd4Block hd;
  IHeader& h = hd;
  const unsigned zone = static_cast<unsigned>(vp_choose(3, "zone"));
  const unsigned groups = static_cast<unsigned>(vp_choose(3, "groups"));
  const bool refs = vp_choose(2, "references") != 0;
  const uint64_t time = vp_nd_u64("time"), later = vp_nd_u64("later");
  const int16_t tz = static_cast<int16_t>(vp_nd_u16("tz")), dst = static_cast<int16_t>(vp_nd_u16("dst"));
  const double angle = vp_nd_double("angle"), distance = vp_nd_double("distance");
  const bool angle_set = vp_choose(2, "angle") != 0, distance_set = vp_choose(2, "distance") != 0;
  TimezoneTimestamp zoned(time, tz, dst);
  UtcTimestamp utc(time);
  if (zone == 0) h.StartTime(time);
  if (zone == 1) h.StartTime(utc);
  if (zone == 2) h.StartTime(zoned);
  if (angle_set) h.StartAngle(angle);
  if (distance_set) h.StartDistance(distance);
  const unsigned histories = static_cast<unsigned>(vp_choose(3, "histories"));
  uint64_t ht[2] = {vp_nd_u64("h0"), vp_nd_u64("h1")};
  for (unsigned i = 0; i < histories; ++i) h.CreateFileHistory()->Time(ht[i]);
  // data groups with 1, 2, ... channel groups of two channels
  const uint8_t id_size = vp_nd_u8("idsize");
  const uint64_t samples = vp_nd_u64("samples");
  static const char* const gname[3] = {"one", "two", "three"};
  for (unsigned d = 0; d < groups; ++d) {
    auto* dg = h.CreateDataGroup();
    for (unsigned g = 0; g <= d; ++g) {
      auto* cg = dg->CreateChannelGroup(std::string_view(gname[d + g]));
      cg->CreateChannel(std::string_view("time"))->Type(ChannelType::Master);
      cg->CreateChannel(std::string_view("value"))->ByteOffset(8 * d + g);
    }
    dg->RecordIdSize(id_size);
  }
  auto* ch = h.CreateChannelHierarchy();
  ch->Name("tree");
  ch->Type(ChType::Function);
  auto* sub = ch->CreateChannelHierarchy();
  sub->Name("branch");
  auto* ev1 = h.CreateEvent();
  ev1->Name("begin");
  auto* ev2 = h.CreateEvent();
  ev2->Name("end");
  IDataGroup* dg = groups > 0 ? h.DataGroups().back() : nullptr;
  IChannelGroup* cg = dg != nullptr ? dg->ChannelGroups().back() : nullptr;
  IChannel* cn = cg != nullptr ? cg->Channels().back() : nullptr;
  if (refs) {
    ev2->RangeEvent(ev1);
    ev2->ParentEvent(ev1);
    if (cn != nullptr) {
      ElementLink e1{dg, cg, nullptr};
      ElementLink e2{dg, cg, cn};
      ch->AddElementLink(e1);
      ch->AddElementLink(e2);
      sub->AddElementLink(e2);
    }
  }
  hd.Write(f);
  CheckFile(f);
  vp_assert(hd.FilePosition() == 64, "the header follows the identification");
  // measuring: the start time and the sample counters change
  const bool again = vp_choose(2, "again") != 0;
  if (again) {
    h.StartTime(later);
    if (cg != nullptr) cg->NofSamples(samples);
    const uint64_t size = f.data.size();
    hd.Write(f);
    vp_assert(f.data.size() == size, "writing again adds no blocks");
    CheckFile(f);
  }
  Hd4Block r;
  ReadAt(r, hd, f);
  r.ReadMeasurementInfo(f);
  r.ReadEverythingButData(f);
  const IHeader& q = r;
  vp_assert(q.StartTime() == (again ? later : time), "start time");
  const auto* ts = q.StartTimestamp();
  if (zone == 2 && !again) {
    vp_assert(ts->GetTimeType() == timetype::kTimezoneTime, "time type");
    vp_assert(ts->GetTzOffsetMin() == static_cast<uint16_t>(tz) && ts->GetDstOffsetMin() == static_cast<uint16_t>(dst), "time zone offsets");
    vp_reach("zone");
  } else {
    vp_assert(ts->GetTimeType() == timetype::kUtcTime && ts->GetTzOffsetMin() == 0 && ts->GetDstOffsetMin() == 0, "coordinated time");
  }
  vp_assert(q.StartAngle().has_value() == angle_set && q.StartDistance().has_value() == distance_set, "start angle and distance present");
  if (angle_set) vp_assert(SameD(*q.StartAngle(), angle), "start angle");
  if (distance_set) vp_assert(SameD(*q.StartDistance(), distance), "start distance");
  const auto hist = q.FileHistories();
  vp_assert(hist.size() == histories, "number of histories");
  for (unsigned i = 0; i < histories; ++i) vp_assert(hist[i]->Time() == ht[i], "history times in order");
  const auto dgs = q.DataGroups();
  vp_assert(dgs.size() == groups, "number of data groups");
  for (unsigned d = 0; d < groups; ++d) {
    vp_assert(dgs[d]->RecordIdSize() == id_size, "record id size");
    const auto cgs = dgs[d]->ChannelGroups();
    vp_assert(cgs.size() == d + 1, "number of channel groups");
    for (unsigned g = 0; g <= d; ++g) {
      vp_assert(cgs[g]->Name() == gname[d + g] && cgs[g]->RecordId() == h.DataGroups()[d]->ChannelGroups()[g]->RecordId(), "channel groups in order");
      vp_assert(g == 0 || cgs[g]->RecordId() != cgs[g - 1]->RecordId(), "record ids of a data group differ");
      const bool last = d + 1 == groups && g == d;
      vp_assert(cgs[g]->NofSamples() == (again && last ? samples : 0), "number of samples");
      const auto cns = cgs[g]->Channels();
      vp_assert(cns.size() == 2 && cns[0]->Name() == "time" && cns[0]->Type() == ChannelType::Master && cns[1]->Name() == "value" &&
                cns[1]->ByteOffset() == 8 * d + g, "channels of the group");
    }
  }
  const auto trees = q.ChannelHierarchies();
  vp_assert(trees.size() == 1 && trees[0]->Name() == "tree" && trees[0]->Type() == ChType::Function, "channel hierarchy");
  const auto branches = trees[0]->ChannelHierarchies();
  vp_assert(branches.size() == 1 && branches[0]->Name() == "branch", "nested channel hierarchy");
  const auto events = q.Events();
  vp_assert(events.size() == 2 && events[0]->Name() == "begin" && events[1]->Name() == "end", "events in order");
  vp_assert(events[1]->RangeEvent() == (refs ? events[0] : nullptr) && events[1]->ParentEvent() == (refs ? events[0] : nullptr), "event references");
  if (refs && cn != nullptr) {
    const auto* rdg = dgs.back();
    const auto* rcg = rdg->ChannelGroups().back();
    const auto* rcn = rcg->Channels().back();
    const auto e = trees[0]->ElementLinks();
    vp_assert(e.size() == 2 && e[0].data_group == rdg && e[0].channel_group == rcg && e[0].channel == nullptr, "hierarchy refers to its channel group");
    vp_assert(e.size() == 2 && e[1].data_group == rdg && e[1].channel_group == rcg && e[1].channel == rcn, "hierarchy refers to its channel");
    const auto s = branches[0]->ElementLinks();
    vp_assert(s.size() == 1 && s[0].data_group == rdg && s[0].channel_group == rcg && s[0].channel == rcn, "nested hierarchy refers to its channel");
    vp_reach("references");
  } else {
    vp_assert(trees[0]->ElementLinks().empty() && branches[0]->ElementLinks().empty(), "no elements");
  }
  vp_reach("header");
}
