// Contracts of the reader over files that other tools lay out: a record stream
// cut anywhere over data blocks, plain, compressed or transposed, in lists of
// lists. The file bytes are built here by hand from the MDF 4 standard.
#include "vp.h"
#include "memfile.h"
#include "mdf/isampleobserver.h"
#include "mdf/zlibutil.h"
#include "cg4block.h"
#include "cn4block.h"
#include "dg4block.h"
#include "dgrange.h"
#include "readcache.h"
#include "sr4block.h"
using namespace mdf;
using namespace mdf::detail;
namespace {
using Bytes = std::vector<uint8_t>;
void Put(Bytes& b, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) b.push_back(static_cast<uint8_t>(v >> (8 * i))); }
uint64_t Block(MemFile& f, const char* type, const std::vector<uint64_t>& links, const Bytes& body) {
  while (f.data.size() % 8 != 0) f.data.push_back(0xA5);
  const uint64_t at = f.data.size();
  Bytes b{'#', '#', static_cast<uint8_t>(type[0]), static_cast<uint8_t>(type[1])};
  Put(b, 0, 4);
  Put(b, 24 + 8 * links.size() + body.size(), 8);
  Put(b, links.size(), 8);
  for (const auto l : links) Put(b, l, 8);
  b.insert(b.end(), body.begin(), body.end());
  f.data.insert(f.data.end(), b.begin(), b.end());
  return at;
}
// kind 0: plain, 1: deflated, 2: transposed (3 columns) and deflated.
uint64_t DataPart(MemFile& f, const char* type, const Bytes& data, unsigned kind) {
  if (kind == 0 || data.empty()) return Block(f, type, {}, data);
  Bytes raw = data;
  if (kind == 2) {
    const size_t rows = data.size() / 3;
    for (size_t r = 0; r < rows; ++r) for (size_t c = 0; c < 3; ++c) raw[c * rows + r] = data[r * 3 + c];
  }
  Bytes zip;
  vp_assert(Deflate(raw, zip), "the data can be compressed");
  Bytes body{static_cast<uint8_t>(type[0]), static_cast<uint8_t>(type[1]), static_cast<uint8_t>(kind - 1), 0};
  Put(body, kind == 2 ? 3 : 0, 4);
  Put(body, data.size(), 8);
  Put(body, zip.size(), 8);
  body.insert(body.end(), zip.begin(), zip.end());
  return Block(f, "DZ", {}, body);
}
uint64_t List(MemFile& f, uint64_t next, const std::vector<uint64_t>& parts, const std::vector<uint64_t>& offsets) {
  std::vector<uint64_t> links{next};
  links.insert(links.end(), parts.begin(), parts.end());
  Bytes body;
  Put(body, 0, 4);
  Put(body, parts.size(), 4);
  for (const auto o : offsets) Put(body, o, 8);
  return Block(f, "DL", links, body);
}
// Stores the stream cut into three parts; returns the link to it.
uint64_t Store(MemFile& f, const char* type, const Bytes& stream, unsigned kinds, bool all) {
  // One block, one list, chained lists, headed list.
  const unsigned shape = all ? static_cast<unsigned>(vp_choose(4, "shape")) : 2;
  if (shape == 0) return DataPart(f, type, stream, static_cast<unsigned>(vp_choose(kinds, "kind")));
  const size_t n = stream.size();
  const size_t c1 = static_cast<size_t>(vp_choose(n + 1, "cut1"));
  const size_t c2 = c1 + static_cast<size_t>(vp_choose(n - c1 + 1, "cut2"));
  const unsigned kind = static_cast<unsigned>(vp_choose(kinds, "kind"));
  const uint64_t a = DataPart(f, type, Bytes(stream.begin(), stream.begin() + c1), kind);
  const uint64_t b = DataPart(f, type, Bytes(stream.begin() + c1, stream.begin() + c2), kind == 0 ? 0 : (kind + 1) % kinds);
  const uint64_t c = DataPart(f, type, Bytes(stream.begin() + c2, stream.end()), kind);
  if (shape == 1) return List(f, 0, {a, b, c}, {0, c1, c2});
  const uint64_t last = List(f, 0, {c}, {c2});
  const uint64_t first = List(f, last, {a, b}, {0, c1});
  if (shape == 2) return first;
  Bytes body;
  Put(body, 0, 8);
  return Block(f, "HL", {first}, body);
}
struct Seen { uint64_t sample, id; Bytes data; };
class Sink : public ISampleObserver {
 public:
  std::vector<Seen> seen;
  Sink(const IDataGroup& dg, const std::set<uint64_t>& ids) : ISampleObserver(dg) { record_id_list_ = ids; }
  bool OnSample(uint64_t sample, uint64_t id, const Bytes& data) override {
    seen.push_back({sample, id, data});
    return true;
  }
};
void Same(const std::vector<Seen>& got, const std::vector<Seen>& want) {
  vp_assert(got.size() == want.size(), "every record of the subscribed groups is delivered, once");
  for (size_t i = 0; i < want.size(); ++i) {
    vp_assert(got[i].id == want[i].id && got[i].sample == want[i].sample, "records keep their group, number and order");
    vp_assert(got[i].data == want[i].data, "record bytes");
  }
}
struct Data {
  MemFile f{64};
  Dg4Block dg;
  Bytes stream;
  std::vector<Seen> all;
  uint64_t ids[3];
  unsigned id_size;
  // Groups: two bytes fixed, three bytes fixed (with an invalidation byte), variable.
  explicit Data(unsigned records, unsigned size) : id_size(size) {
    ids[0] = 1; ids[1] = id_size == 8 ? 0x8000000000000002ULL : (1ULL << (8 * id_size - 1)) + 2; ids[2] = 3;
    Cg4Block* cgs[3];
    for (auto& cg : cgs) cg = dynamic_cast<Cg4Block*>(dg.CreateChannelGroup());
    dg.RecordIdSize(static_cast<uint8_t>(id_size));
    uint64_t counts[3] = {0, 0, 0};
    for (unsigned r = 0; r < records; ++r) {
      const unsigned k = static_cast<unsigned>(vp_choose(3, "record"));
      Bytes data = vp_vec(k == 0 ? 2 : k == 1 ? 3 : vp_choose(2, "length"), "data");
      Put(stream, ids[k], id_size);
      if (k == 2) Put(stream, data.size(), 4);
      stream.insert(stream.end(), data.begin(), data.end());
      all.push_back({counts[k]++, ids[k], data});
    }
    for (unsigned k = 0; k < 3; ++k) {
      auto* cg = cgs[k];
      cg->RecordId(ids[k]);
      cg->NofSamples(counts[k]);
      if (k == 2) cg->Flags(CgFlag::VlsdChannel);
      cg->nof_data_bytes_ = (k == 0 ? 2 : k == 1 ? 2 : 0);
      cg->nof_invalid_bytes_ = k == 1 ? 1 : 0;
    }
    dg.link_list_.resize(4, 0);
  }
  void Link(uint64_t at) {
    dg.link_list_[2] = static_cast<int64_t>(at);
    dg.ReadBlockList(f, 2);
  }
};
}  // namespace

// Records of three groups in any order, cut anywhere, any subset subscribed.
VP_CONTRACT(stream_records) {
  // One record with ids of 1, 2, 4 or 8 bytes, or two records.
  const unsigned mode = static_cast<unsigned>(vp_choose(5, "mode"));
  const uint64_t subset = 7 & (0x74210 >> (4 * vp_choose(5, "subscribed")));
  if ((subset == 0 && mode != 0) || (subset == 2 && mode == 4)) vp_path_end();
  Data d(mode == 4 ? 2 : 1, mode == 4 ? 1 : 1u << mode);
  d.Link(Store(d.f, "DT", d.stream, mode == 0 ? 3 : 2, mode == 0));
  std::set<uint64_t> want_ids;
  std::vector<Seen> want;
  for (unsigned k = 0; k < 3; ++k) if ((subset >> k) & 1) want_ids.insert(d.ids[k]);
  for (const auto& s : d.all) if (want_ids.count(s.id) != 0) want.push_back(s);
  Sink sink(d.dg, want_ids);
  d.dg.ReadData(d.f);
  Same(sink.seen, want);
  vp_reach(want.empty() ? "nothing" : want.size() > 1 ? "two records" : "some");
}

// A range of samples (counted from one) of the subscribed groups.
VP_CONTRACT(stream_range) {
  Data d(3, 1);
  d.Link(DataPart(d.f, "DT", d.stream, static_cast<unsigned>(vp_choose(2, "kind"))));
  const uint64_t subset = 7 & (0x7421 >> (4 * vp_choose(4, "subscribed")));
  const uint64_t min = 1 + vp_choose(3, "min");
  const uint64_t max = min + vp_choose(3, "max");
  std::set<uint64_t> want_ids;
  std::vector<Seen> want;
  for (unsigned k = 0; k < 3; ++k) if ((subset >> k) & 1) want_ids.insert(d.ids[k]);
  for (const auto& s : d.all) if (want_ids.count(s.id) != 0 && s.sample + 1 >= min && s.sample + 1 <= max) want.push_back(s);
  Sink sink(d.dg, want_ids);
  DgRange range(d.dg, min, max);
  d.dg.ReadRangeData(d.f, range);
  Same(sink.seen, want);
  vp_reach(want.empty() ? "nothing" : want.size() > 1 ? "two records" : "some");
}

namespace {
struct Value { uint64_t offset; Bytes data; };
// The values of the wanted offsets, in file order.
void SameValues(const std::vector<Value>& got, const std::vector<Value>& all, uint64_t wanted) {
  size_t n = 0;
  for (size_t i = 0; i < all.size(); ++i) {
    if (((wanted >> i) & 1) == 0) continue;
    vp_assert(n < got.size() && got[n].offset == all[i].offset && got[n].data == all[i].data, "the value at each wanted offset is delivered");
    ++n;
  }
  vp_assert(n == got.size(), "only wanted values are delivered");
}
}  // namespace

// Signal data cut anywhere: the whole buffer, all values, or the values at a list of offsets.
VP_CONTRACT(stream_signal) {
  MemFile f(64);
  Dg4Block dg;
  auto* cg = dynamic_cast<Cg4Block*>(dg.CreateChannelGroup());
  auto* cn = dynamic_cast<Cn4Block*>(cg->CreateChannel());
  cn->Type(ChannelType::VariableLength);
  cn->DataType(ChannelDataType::ByteArray);
  cn->BitCount(64);
  const unsigned n = 1 + static_cast<unsigned>(vp_choose(3, "values"));
  Bytes stream;
  std::vector<Value> all;
  for (unsigned i = 0; i < n; ++i) {
    const Bytes data = vp_vec(n == 3 ? 2 - i : i == 1 ? 2 : vp_choose(2, "length"), "data");
    all.push_back({stream.size(), data});
    Put(stream, data.size(), 4);
    stream.insert(stream.end(), data.begin(), data.end());
  }
  const uint64_t at = Store(f, "SD", stream, 2, n == 1);
  cn->link_list_.resize(8, 0);
  cn->link_list_[5] = static_cast<int64_t>(at);
  cn->ReadBlockList(f, 5);
  vp_assert(cn->DataSize() == stream.size(), "size of the signal data");
  cn->ReadSignalData(f);
  vp_assert(cn->data_list_ == stream, "the signal data are joined in order");
  for (const auto& v : all) {
    Bytes record, out;
    Put(record, v.offset, 8);
    vp_assert(cn->GetByteArrayValue(record, out) && out == v.data, "a record selects its value by its offset");
  }
  const uint64_t wanted = vp_choose(1u << n, "wanted");
  std::vector<uint64_t> offsets;
  for (unsigned i = n; i-- > 0;) if ((wanted >> i) & 1) offsets.push_back(all[i].offset);
  std::vector<Value> got;
  std::function<void(uint64_t, const Bytes&)> callback = [&](uint64_t offset, const Bytes& data) { got.push_back({offset, data}); };
  dg.ReadVlsdData(f, *cn, offsets, callback);
  SameValues(got, all, wanted == 0 ? 7 : wanted);
  vp_reach(wanted == 0 ? "all" : "selected");
}

// Variable length values stored in a group of their own, between other records.
VP_CONTRACT(stream_vlsd) {
  Data d(3, 1);
  d.Link(DataPart(d.f, "DT", d.stream, static_cast<unsigned>(vp_choose(2, "kind"))));
  auto* owner = dynamic_cast<Cg4Block*>(d.dg.ChannelGroups()[0]);
  auto* group = dynamic_cast<Cg4Block*>(d.dg.ChannelGroups()[2]);
  auto* cn = dynamic_cast<Cn4Block*>(owner->CreateChannel());
  cn->Type(ChannelType::VariableLength);
  cn->VlsdRecordId(d.ids[2]);
  group->file_position_ = 4096;
  cn->link_list_.resize(8, 0);
  cn->link_list_[5] = 4096;
  std::vector<Value> all;
  uint64_t offset = 0;
  for (const auto& s : d.all) {
    if (s.id != d.ids[2]) continue;
    all.push_back({offset, s.data});
    offset += 4 + s.data.size();
  }
  const unsigned n = static_cast<unsigned>(all.size());
  const uint64_t wanted = vp_choose(1u << n, "wanted");
  std::vector<uint64_t> offsets;
  for (unsigned i = n; i-- > 0;) if ((wanted >> i) & 1) offsets.push_back(all[i].offset);
  std::vector<Value> got;
  std::function<void(uint64_t, const Bytes&)> callback = [&](uint64_t o, const Bytes& data) { got.push_back({o, data}); };
  d.dg.ReadVlsdData(d.f, *cn, offsets, callback);
  SameValues(got, all, wanted == 0 ? 7 : wanted);
  vp_reach(wanted == 0 ? "all" : "selected");
}

// Reduced samples: mean, minimum and maximum of every interval.
VP_CONTRACT(stream_reduction) {
  MemFile f(64);
  Dg4Block dg;
  auto* cg = dynamic_cast<Cg4Block*>(dg.CreateChannelGroup());
  const unsigned type = static_cast<unsigned>(vp_choose(3, "type"));
  auto* cn = dynamic_cast<Cn4Block*>(cg->CreateChannel());
  cn->DataType(type == 0 ? ChannelDataType::UnsignedIntegerLe : type == 1 ? ChannelDataType::SignedIntegerBe : ChannelDataType::FloatLe);
  cn->BitCount(type == 2 ? 64 : 16);
  cn->ByteOffset(1);
  const unsigned bytes = type == 2 ? 8 : 2;
  const bool invalid = vp_choose(2, "invalid") == 1;
  cg->nof_data_bytes_ = 1 + bytes;
  cg->nof_invalid_bytes_ = invalid ? 1 : 0;
  if (invalid) {
    cn->Flags(CnFlag::InvalidValid);
    cn->invalid_bit_pos_ = 3;
  }
  const unsigned n = 1 + static_cast<unsigned>(vp_choose(2, "intervals"));
  Bytes stream;
  std::vector<uint64_t> raw;
  std::vector<bool> valid;
  for (unsigned i = 0; i < 3 * n; ++i) {
    const Bytes v = vp_vec(bytes, "value");
    uint64_t x = 0;
    for (unsigned k = 0; k < bytes; ++k) x |= static_cast<uint64_t>(v[type == 1 ? bytes - 1 - k : k]) << (8 * k);
    raw.push_back(x);
    stream.push_back(vp_nd_u8("other"));
    stream.insert(stream.end(), v.begin(), v.end());
    valid.push_back(true);
    if (invalid) {
      const uint8_t bits = vp_nd_u8("invalid bits");
      valid[i] = (bits & 8) == 0;
      stream.push_back(bits);
    }
  }
  const uint64_t at = DataPart(f, "RD", stream, static_cast<unsigned>(vp_choose(2, "kind")));
  Bytes body;
  const double interval = vp_nd_double("interval");
  Put(body, n, 8);
  Put(body, vp_dbits(interval), 8);
  body.push_back(1);
  body.push_back(invalid ? 1 : 0);
  Put(body, 0, 6);
  const uint64_t sr_at = Block(f, "SR", {0, at}, body);
  Sr4Block sr;
  sr.Init(*cg);
  f.pubseekpos(static_cast<std::streamoff>(sr_at));
  sr.Read(f);
  vp_assert(sr.NofSamples() == n && vp_dbits(sr.Interval()) == vp_dbits(interval) && sr.SyncType() == SrSyncType::Time && sr.Flags() == (invalid ? 1 : 0), "description of the reduction");
  sr.ReadData(f);
  const ISampleReduction& r = sr;
  for (unsigned i = 0; i < n; ++i) {
    bool ok[3];
    if (type == 0) {
      SrValue<uint64_t> v;
      r.GetChannelValue(*cn, i, 0, v);
      vp_assert(v.MeanValue == raw[3 * i] && v.MinValue == raw[3 * i + 1] && v.MaxValue == raw[3 * i + 2], "unsigned mean, minimum and maximum");
      ok[0] = v.MeanValid; ok[1] = v.MinValid; ok[2] = v.MaxValid;
    } else if (type == 1) {
      SrValue<int64_t> v;
      r.GetChannelValue(*cn, i, 0, v);
      const auto sign = [](uint64_t x) { return static_cast<int64_t>(static_cast<int16_t>(x)); };
      vp_assert(v.MeanValue == sign(raw[3 * i]) && v.MinValue == sign(raw[3 * i + 1]) && v.MaxValue == sign(raw[3 * i + 2]), "signed mean, minimum and maximum");
      ok[0] = v.MeanValid; ok[1] = v.MinValid; ok[2] = v.MaxValid;
    } else {
      SrValue<double> v;
      r.GetChannelValue(*cn, i, 0, v);
      vp_assert(vp_dbits(v.MeanValue) == raw[3 * i] && vp_dbits(v.MinValue) == raw[3 * i + 1] && vp_dbits(v.MaxValue) == raw[3 * i + 2], "float mean, minimum and maximum");
      ok[0] = v.MeanValid; ok[1] = v.MinValid; ok[2] = v.MaxValid;
    }
    for (unsigned k = 0; k < 3; ++k) vp_assert(ok[k] == valid[3 * i + k], "validity of mean, minimum and maximum");
  }
  vp_reach(invalid ? "validity" : "reduction");
}
