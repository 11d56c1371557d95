// Contracts of the MDF 3 block storage: what a user configures is what a reader
// finds in the file, and record streams and sample reductions laid out by the
// MDF 3 standard are read as they are.
#include "vp.h"
#include "memfile.h"
#include "mdf/isampleobserver.h"
#include "cc3block.h"
#include "cg3block.h"
#include "cn3block.h"
#include "dg3block.h"
#include "dgrange.h"
#include "hd3block.h"
#include "pr3block.h"
#include "sr3block.h"
#include "tr3block.h"
#include "tx3block.h"
using namespace mdf;
using namespace mdf::detail;
namespace {
using Bytes = std::vector<uint8_t>;
// A text as the library stores it: no zero byte inside, no blank at its ends.
std::string AnyText(unsigned len, const char* name) {
  const auto b = vp_vec(len, name);
  for (unsigned i = 0; i < len; ++i) vp_assume(b[i] > 0x20);
  return std::string(b.begin(), b.end());
}
// Lengths around the size of the fixed text field.
std::string FieldText(unsigned size, const char* name) {
  const unsigned k = static_cast<unsigned>(vp_choose(3, name));
  return AnyText(k == 0 ? 0 : k == 1 ? 3 : size, name);
}
bool SameD(double a, double b) { return vp_dbits(a) == vp_dbits(b); }
uint64_t At(const MemFile& f, uint64_t pos, unsigned n) {
  uint64_t v = 0;
  for (unsigned i = n; i-- > 0;) v = (v << 8) | f.data[pos + i];
  return v;
}
// The file after its head is a sequence of blocks of their stated length.
void CheckFile(const MemFile& f, uint64_t start = 64) {
  uint64_t pos = start;
  while (pos < f.data.size()) {
    vp_assert(pos + 4 <= f.data.size() && f.data[pos] >= 'A' && f.data[pos] <= 'Z' && f.data[pos + 1] >= 'A' && f.data[pos + 1] <= 'Z', "a block starts with its identification");
    const uint64_t len = vp_concrete_u64(At(f, pos + 2, 2));
    vp_assert(len >= 4 && pos + len <= f.data.size(), "the block length lies inside the file");
    pos += len;
  }
  vp_assert(pos == f.data.size(), "the file is a sequence of blocks");
}
bool IsBlock(const MemFile& f, int64_t at, const char* type) {
  return at >= 64 && static_cast<uint64_t>(at) + 4 <= f.data.size() && f.data[at] == static_cast<uint8_t>(type[0]) && f.data[at + 1] == static_cast<uint8_t>(type[1]);
}
void Put(Bytes& b, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) b.push_back(static_cast<uint8_t>(v >> (8 * i))); }
uint64_t Block(MemFile& f, const char* type, const std::vector<uint64_t>& links, const Bytes& body) {
  const uint64_t at = f.data.size();
  Bytes b{static_cast<uint8_t>(type[0]), static_cast<uint8_t>(type[1])};
  Put(b, 4 + 4 * links.size() + body.size(), 2);
  for (const auto l : links) Put(b, l, 4);
  b.insert(b.end(), body.begin(), body.end());
  f.data.insert(f.data.end(), b.begin(), b.end());
  return at;
}
}  // namespace

VP_CONTRACT(b3_conversion) {
  MemFile f(64);
  Cc3Block cc;
  IChannelConversion& c = cc;
  static const ConversionType kind[13] = {ConversionType::NoConversion, ConversionType::Linear, ConversionType::ValueToValueInterpolation, ConversionType::ValueToValue,
      ConversionType::Polynomial, ConversionType::Exponential, ConversionType::Logarithmic, ConversionType::Rational, ConversionType::Algebraic,
      ConversionType::ValueToText, ConversionType::ValueRangeToText, ConversionType::DateConversion, ConversionType::TimeConversion};
  static const uint16_t code[13] = {65535, 0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 132, 133};
  const unsigned k = static_cast<unsigned>(vp_choose(13, "kind"));
  const ConversionType t = kind[k];
  const unsigned n = static_cast<unsigned>(vp_choose(3, "entries"));
  const std::string unit = FieldText(19, "unit");
  c.Type(t);
  c.Unit(unit);
  cc.range_valid_ = vp_nd_bool("range valid");
  cc.min_ = vp_nd_double("min");
  cc.max_ = vp_nd_double("max");
  std::vector<double> p;
  std::vector<std::string> text;
  unsigned numbers = 0;
  if (k == 1 || (k >= 4 && k <= 7)) numbers = 3 * n;
  if (k == 2 || k == 3) numbers = 2 * n;
  for (unsigned i = 0; i < numbers; ++i) {
    p.push_back(vp_nd_double("parameter"));
    c.Parameter(static_cast<uint16_t>(i), p[i]);
  }
  if (k == 8) {
    text.push_back(AnyText(2 * n, "formula"));
    c.Formula(text[0]);
  }
  for (unsigned i = 0; i < n && (k == 9 || k == 10); ++i) {
    text.push_back(k == 9 ? FieldText(31, "text") : AnyText(static_cast<unsigned>(vp_choose(3, "text")), "text"));
    p.push_back(vp_nd_double("key"));
    p.push_back(vp_nd_double("upper"));
    if (k == 9) {
      TextConversion tc;
      tc.value = p[2 * i];
      tc.text = text[i];
      cc.text_conversion_list_.push_back(tc);
    } else {
      TextRangeConversion tc;
      tc.lower = p[2 * i];
      tc.upper = p[2 * i + 1];
      tc.text = text[i];
      cc.text_range_conversion_list_.push_back(tc);
    }
  }
  cc.Write(f);
  CheckFile(f);
  const int64_t at = cc.FilePosition();
  vp_assert(IsBlock(f, at, "CC") && At(f, at + 42, 2) == code[k], "conversion block stored with its type");
  Cc3Block r;
  f.pubseekpos(at);
  r.Read(f);
  const IChannelConversion& q = r;
  vp_assert(q.Type() == t && q.Unit() == unit, "conversion type and unit");
  vp_assert(r.range_valid_ == cc.range_valid_ && SameD(r.min_, cc.min_) && SameD(r.max_, cc.max_), "conversion range");
  if (numbers > 0) {
    vp_assert(r.value_list_.size() == numbers, "number of parameters");
    for (unsigned i = 0; i < numbers; ++i) vp_assert(SameD(q.Parameter(static_cast<uint16_t>(i)), p[i]), "parameter value");
  }
  if (k == 8) vp_assert(q.Formula() == text[0], "formula");
  if (k == 9) {
    vp_assert(r.text_conversion_list_.size() == n, "number of texts");
    for (unsigned i = 0; i < n; ++i) vp_assert(SameD(r.text_conversion_list_[i].value, p[2 * i]) && r.text_conversion_list_[i].text == text[i], "text and its key");
  }
  if (k == 10) {
    vp_assert(r.text_range_conversion_list_.size() == n, "number of ranges");
    for (unsigned i = 0; i < n; ++i) {
      const auto& x = r.text_range_conversion_list_[i];
      vp_assert(SameD(x.lower, p[2 * i]) && SameD(x.upper, p[2 * i + 1]) && x.text == text[i], "text and its range");
    }
  }
  const Bytes before = f.data;
  cc.Write(f);
  vp_assert(f.data == before, "writing again stores nothing twice");
  vp_reach(n == 2 ? "two entries" : "conversion");
}

VP_CONTRACT(b3_channel) {
  MemFile f(64);
  Dg3Block dg;
  auto* cg = dynamic_cast<Cg3Block*>(dg.CreateChannelGroup());
  auto* cn = dynamic_cast<Cn3Block*>(cg->CreateChannel());
  IChannel& c = *cn;
  static const unsigned lengths[5] = {0, 3, 31, 32, 45};
  const std::string name = AnyText(lengths[vp_choose(5, "name")], "name");
  const std::string description = FieldText(127, "description");
  const std::string display = AnyText(2 * static_cast<unsigned>(vp_choose(2, "display")), "display");
  const std::string unit = AnyText(static_cast<unsigned>(vp_choose(2, "unit")), "unit");
  static const ChannelDataType types[11] = {ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe, ChannelDataType::SignedIntegerLe, ChannelDataType::SignedIntegerBe,
      ChannelDataType::FloatLe, ChannelDataType::FloatBe, ChannelDataType::FloatLe, ChannelDataType::StringAscii, ChannelDataType::ByteArray, ChannelDataType::CanOpenDate, ChannelDataType::CanOpenTime};
  const unsigned k = static_cast<unsigned>(vp_choose(11, "type"));
  unsigned bytes = 0;
  c.Name(name);
  c.Description(description);
  c.DisplayName(display);
  c.Type(vp_choose(2, "master") == 1 ? ChannelType::Master : ChannelType::FixedLength);
  c.DataType(types[k]);
  if (k < 4) bytes = 1 + vp_nd_u8("bytes") % 8;
  else if (k < 6) bytes = 4;
  else if (k == 6) bytes = 8;
  else if (k < 9) bytes = 1 + vp_nd_u16("bytes") % 8191;
  else bytes = k == 9 ? 7 : 6;
  if (k < 9) c.DataBytes(bytes);
  if (!unit.empty()) c.Unit(unit);
  const double rate = vp_nd_double("rate");
  c.SamplingRate(rate);
  const uint16_t offset = vp_nd_u16("offset");
  c.ByteOffset(offset);
  vp_assert(c.ByteOffset() == offset && c.BitOffset() == 0, "byte offset");
  cn->range_valid_ = vp_nd_bool("range valid");
  cn->min_ = vp_nd_double("min");
  cn->max_ = vp_nd_double("max");
  auto* other = cg->CreateChannel();
  other->Name("z");
  other->DataType(ChannelDataType::UnsignedIntegerLe);
  dg.Write(f);
  CheckFile(f);
  Dg3Block rd;
  f.pubseekpos(dg.FilePosition());
  rd.Read(f);
  vp_assert(rd.Cg3().size() == 1, "one group");
  rd.Cg3()[0]->ReadCnList(f);
  const auto list = rd.Cg3()[0]->Channels();
  vp_assert(list.size() == 2 && list[1]->Name() == "z" && list[1]->DataBytes() == 4, "every channel is stored in order");
  const IChannel& r = *list[0];
  const auto* rn = dynamic_cast<const Cn3Block*>(list[0]);
  vp_assert(r.Name() == name && r.Description() == description && r.DisplayName() == display, "channel names and description");
  vp_assert(r.Type() == c.Type() && r.DataType() == types[k] && r.DataBytes() == bytes && r.BitCount() == 8 * bytes, "channel type, data type and size");
  vp_assert(r.ByteOffset() == offset && r.BitOffset() == 0, "stored byte offset");
  vp_assert(SameD(r.SamplingRate(), rate), "sampling rate");
  vp_assert(rn->range_valid_ == cn->range_valid_ && SameD(rn->min_, cn->min_) && SameD(rn->max_, cn->max_), "channel range");
  if (!unit.empty()) vp_assert(r.Unit() == unit, "channel unit");
  else vp_assert(r.Unit() == (k < 9 && c.Type() == ChannelType::Master ? "s" : ""), "no unit");
  if (k < 9 && r.ChannelConversion() != nullptr) vp_assert(r.ChannelConversion()->Type() == ConversionType::NoConversion, "a unit adds no conversion");
  const Bytes before = f.data;
  dg.Write(f);
  vp_assert(f.data == before, "writing again stores nothing twice");
  vp_reach(name.size() > 31 ? "long name" : "channel");
}

VP_CONTRACT(b3_header) {
  MemFile f(64);
  Hd3Block hd;
  IHeader& h = hd;
  const unsigned which = static_cast<unsigned>(vp_choose(4, "field"));
  const auto text = [&](unsigned i, const char* name) { return which == i ? FieldText(31, name) : AnyText(2, name); };
  const std::string author = text(0, "author"), department = text(1, "department"), project = text(2, "project"), subject = text(3, "subject");
  const std::string description = AnyText(static_cast<unsigned>(vp_choose(2, "description")) * 4, "description");
  h.Author(author);
  h.Department(department);
  h.Project(project);
  h.Subject(subject);
  h.Description(description);
  const uint64_t start = 1'700'000'000'123'456'789ULL + vp_choose(2, "day") * 86'400'000'000'000ULL;
  h.StartTime(start);
  const bool program = vp_choose(2, "program") == 1;
  const std::string pr = AnyText(5, "program");
  if (program) hd.pr_block_ = std::make_unique<Pr3Block>(pr);
  const unsigned nd = static_cast<unsigned>(vp_choose(3, "data groups"));
  const unsigned ng = 1 + static_cast<unsigned>(vp_choose(2, "groups"));
  const bool trigger = vp_choose(2, "trigger") == 1;
  const double times[3] = {vp_nd_double("event"), vp_nd_double("pre"), vp_nd_double("post")};
  const std::string comment = AnyText(3, "comment"), reason = AnyText(2, "reason");
  uint32_t samples[2][2];
  for (unsigned d = 0; d < nd; ++d) {
    auto* dg = dynamic_cast<Dg3Block*>(h.CreateDataGroup());
    for (unsigned g = 0; g < ng; ++g) {
      auto* cg = dg->CreateChannelGroup();
      samples[d][g] = vp_nd_u32("samples");
      cg->NofSamples(samples[d][g]);
      if (g == 0) cg->Description(comment);
      cg->CreateChannel()->Name("c");
    }
    if (trigger && d == 0) {
      dg->tr_block_ = std::make_unique<Tr3Block>();
      dg->tr_block_->Init(*dg);
      dg->tr_block_->comment_ = reason;
      Tr3Event ev;
      ev.event_time = times[0];
      ev.pre_time = times[1];
      ev.post_time = times[2];
      dg->tr_block_->event_list_.push_back(ev);
      dg->tr_block_->event_list_.push_back(Tr3Event());
    }
  }
  hd.Write(f);
  CheckFile(f);
  if (nd > 0 && vp_choose(2, "again") == 1) {
    // A later write updates the counters of the last data group.
    for (unsigned g = 0; g < ng; ++g) {
      samples[nd - 1][g] = vp_nd_u32("samples later");
      h.DataGroups()[nd - 1]->ChannelGroups()[g]->NofSamples(samples[nd - 1][g]);
    }
    const size_t size = f.data.size();
    hd.Write(f);
    vp_assert(f.data.size() == size, "writing again stores nothing twice");
  }
  Hd3Block rh;
  f.pubseekpos(hd.FilePosition());
  rh.Read(f);
  rh.ReadMeasurementInfo(f);
  rh.ReadEverythingButData(f);
  const IHeader& r = rh;
  vp_assert(r.Author() == author && r.Department() == department && r.Project() == project && r.Subject() == subject && r.Description() == description, "header texts");
  vp_assert(r.StartTime() == start && rh.timestamp_.utc_offset_ == 0 && rh.timestamp_.timer_id_ == hd.timestamp_.timer_id_, "start time");
  vp_assert(rh.timestamp_.date_ == hd.timestamp_.date_ && rh.timestamp_.time_ == hd.timestamp_.time_, "start date and time of day");
  vp_assert((rh.pr_block_ != nullptr) == program && (!program || rh.pr_block_->Text() == pr), "program text");
  vp_assert(r.DataGroups().size() == nd && rh.nof_dg_blocks_ == nd, "every data group is stored");
  for (unsigned d = 0; d < nd; ++d) {
    const auto* dg = rh.Dg3()[d].get();
    vp_assert(dg->Cg3().size() == ng && dg->nof_record_id_ == (ng > 1 ? 1 : 0), "every group is stored and record ids are used for several groups only");
    for (unsigned g = 0; g < ng; ++g) {
      const auto& cg = *dg->Cg3()[g];
      vp_assert(cg.NofSamples() == samples[d][g], "number of samples");
      vp_assert(cg.RecordId() == (ng > 1 ? g + 1 : 0), "record id");
      vp_assert(cg.Description() == (g == 0 ? comment : ""), "group description");
      vp_assert(cg.Channels().size() == 1 && cg.Channels()[0]->Name() == "c", "channel of a group");
    }
    vp_assert((dg->tr_block_ != nullptr) == (trigger && d == 0), "trigger");
    if (trigger && d == 0) {
      vp_assert(dg->tr_block_->Comment() == reason && dg->tr_block_->event_list_.size() == 2, "trigger events");
      const auto& ev = dg->tr_block_->event_list_[0];
      vp_assert(SameD(ev.event_time, times[0]) && SameD(ev.pre_time, times[1]) && SameD(ev.post_time, times[2]), "trigger times");
    }
  }
  vp_reach(nd == 2 ? "two data groups" : "header");
}

namespace {
struct Seen { uint64_t sample, id; Bytes data; };
class Sink : public ISampleObserver {
 public:
  std::vector<Seen> seen;
  explicit Sink(const IDataGroup& dg) : ISampleObserver(dg) {}
  bool OnSample(uint64_t sample, uint64_t id, const Bytes& data) override {
    seen.push_back({sample, id, data});
    return true;
  }
};
uint64_t ChannelBlock(MemFile& f, uint16_t bit, uint16_t bits, uint16_t type, uint64_t cc = 0) {
  Bytes b;
  Put(b, 0, 2);
  Put(b, 'v', 32);
  Put(b, 0, 128);
  Put(b, bit, 2);
  Put(b, bits, 2);
  Put(b, type, 2);
  Put(b, 0, 2);
  Put(b, 0, 24);
  Put(b, 0, 8);
  Put(b, 0, 2);
  return Block(f, "CN", {0, cc, 0, 0, 0}, b);
}
}  // namespace

// A data group as the standard lays it out: record ids before, or before and
// after each record, with sample reductions, read whole or over a range.
VP_CONTRACT(b3_stream) {
  MemFile f(64);
  const unsigned ids = static_cast<unsigned>(vp_choose(3, "record ids"));
  const unsigned ng = ids == 0 ? 1 : 2;
  const unsigned n = static_cast<unsigned>(vp_choose(4, "records"));
  const unsigned reduced = static_cast<unsigned>(vp_choose(3, "reduced"));
  const uint8_t id[2] = {7, 3};
  const unsigned size[2] = {3, 5};
  const unsigned type = static_cast<unsigned>(vp_choose(2, "type"));
  std::vector<Seen> all;
  unsigned count[2] = {0, 0};
  Bytes stream;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned g = ng == 1 ? 0 : static_cast<unsigned>(vp_choose(2, "group"));
    Seen s{count[g]++, ids == 0 ? 7ULL : id[g], vp_vec(size[g], "record")};
    if (ids > 0) stream.push_back(id[g]);
    stream.insert(stream.end(), s.data.begin(), s.data.end());
    if (ids == 2) stream.push_back(id[g]);
    all.push_back(s);
  }
  // The reduction of the first group comes before or after the data.
  const unsigned order = static_cast<unsigned>(vp_choose(2, "order"));
  uint64_t data = 0, sr = 0;
  const double interval = vp_nd_double("interval");
  std::vector<uint64_t> raw;
  for (unsigned step = 0; step < 2; ++step) {
    if (step == order) {
      data = f.data.size();
      f.data.insert(f.data.end(), stream.begin(), stream.end());
      continue;
    }
    if (reduced == 0) continue;
    const uint64_t at = f.data.size();
    for (unsigned i = 0; i < 3 * reduced; ++i) {
      const Bytes b = vp_vec(size[0], "reduced");
      raw.push_back(type == 0 ? b[1] + 256ULL * b[2] : b[2] + 256ULL * b[1]);
      f.data.insert(f.data.end(), b.begin(), b.end());
    }
    Bytes body;
    Put(body, reduced, 4);
    Put(body, vp_dbits(interval), 8);
    sr = Block(f, "SR", {0, at}, body);
  }
  uint64_t next = 0;
  for (unsigned g = ng; g-- > 0;) {
    const uint64_t cn = ChannelBlock(f, 8, 16, type == 0 ? 0 : 9);
    Bytes body;
    Put(body, id[g], 2);
    Put(body, 1, 2);
    Put(body, size[g], 2);
    Put(body, count[g], 4);
    Put(body, g == 0 ? sr : 0, 4);
    next = Block(f, "CG", {next, cn, 0}, body);
  }
  Bytes body;
  Put(body, ng, 2);
  Put(body, ids, 2);
  Put(body, 0, 4);
  const uint64_t at = Block(f, "DG", {0, next, 0, data}, body);
  Dg3Block dg;
  f.pubseekpos(static_cast<std::streamoff>(at));
  dg.Read(f);
  vp_assert(dg.Cg3().size() == ng, "the groups are found");
  for (const auto& cg : dg.Cg3()) {
    cg->ReadCnList(f);
    cg->ReadSrList(f);
  }
  const auto& list = dg.Cg3()[0]->Sr3();
  vp_assert(list.size() == (reduced > 0 ? 1 : 0), "the sample reduction is found");
  Sink sink(dg);
  const unsigned lo = static_cast<unsigned>(vp_choose(3, "range"));
  if (lo == 0) {
    dg.ReadData(f);
  } else {
    DgRange range(dg, lo, 2);
    dg.ReadRangeData(f, range);
  }
  std::vector<Seen> want;
  for (const auto& s : all) if (lo == 0 || (s.sample + 1 >= lo && s.sample + 1 <= 2)) want.push_back(s);
  vp_assert(sink.seen.size() == want.size(), "every record is delivered, once");
  for (size_t i = 0; i < want.size(); ++i) {
    const auto& g = sink.seen[i];
    vp_assert(g.sample == want[i].sample && g.id == want[i].id && g.data == want[i].data, "records keep their group, number, order and bytes");
  }
  // A range beyond the group reads nothing of it.
  if (reduced > 0 && (lo == 0 || count[0] >= lo)) {
    const ISampleReduction& r = *list[0];
    const auto* cn = dg.Cg3()[0]->Channels()[0];
    vp_assert(r.NofSamples() == reduced && SameD(r.Interval(), interval), "description of the reduction");
    for (unsigned i = 0; i < reduced; ++i) {
      SrValue<uint64_t> v;
      r.GetChannelValue(*cn, i, 0, v);
      vp_assert(v.MeanValid && v.MinValid && v.MaxValid, "the reduction is valid");
      vp_assert(v.MeanValue == raw[3 * i] && v.MinValue == raw[3 * i + 1] && v.MaxValue == raw[3 * i + 2], "mean, minimum and maximum");
    }
    vp_reach("reduced");
  }
  vp_reach(want.empty() ? "nothing" : "records");
}

// A range text table of the file gives the text of the range that holds the
// value: the upper limit belongs to a range for integer channels only.
VP_CONTRACT(b3_text_range) {
  MemFile f(64);
  const unsigned n = static_cast<unsigned>(vp_choose(4, "ranges"));  // besides the default
  static const uint16_t code[9] = {0, 1, 2, 3, 9, 10, 11, 13, 16};
  const unsigned k = static_cast<unsigned>(vp_choose(9, "type"));
  const bool real = k == 2 || k == 3 || k == 6 || k == 8;
  std::vector<double> lo, hi;
  std::vector<std::string> text;
  std::vector<uint64_t> at;
  for (unsigned i = 0; i <= n; ++i) {
    lo.push_back(vp_nd_double("lower"));
    hi.push_back(vp_nd_double("upper"));
    text.push_back(std::string(1 + i, static_cast<char>('a' + i)));
    Bytes b(text[i].begin(), text[i].end());
    b.push_back(0);
    at.push_back(Block(f, "TX", {}, b));
  }
  Bytes body;
  Put(body, 0, 2);
  Put(body, 0, 16);
  Put(body, 'u', 20);
  Put(body, 12, 2);
  Put(body, n + 1, 2);
  for (unsigned i = 0; i <= n; ++i) {
    Put(body, vp_dbits(lo[i]), 8);
    Put(body, vp_dbits(hi[i]), 8);
    Put(body, at[i], 4);
  }
  const uint64_t cc = Block(f, "CC", {}, body);
  const uint64_t pos = ChannelBlock(f, 0, k == 3 || k == 8 ? 64 : 32, code[k], cc);
  Cn3Block cn;
  f.pubseekpos(static_cast<std::streamoff>(pos));
  cn.Read(f);
  const double v = vp_nd_double("value");
  vp_assume(v == v);
  std::string want = text[0];
  for (unsigned i = n; i >= 1; --i)
    if (v >= lo[i] && (real ? v < hi[i] : v <= hi[i])) want = text[i];
  std::string got;
  vp_assert(cn.ChannelConversion() != nullptr && cn.ChannelConversion()->Convert(v, got) && got == want, "text of the first range that holds the value");
  if (want == text[0]) vp_reach("default"); else vp_reach("range");
}
