// Contracts of byte array, text and variable length channel values, and of
// reading hostile layouts (cn4block.cpp, ichannel.cpp).
#include "vp.h"
#include "mdf/ichannel.h"
#include "mdf/ichannelgroup.h"
#include "mdf/idatagroup.h"
#include "cg4block.h"
#include "cn4block.h"
#include "dg4block.h"
using namespace mdf;
using mdf::detail::Cg4Block;
using mdf::detail::Cn4Block;
namespace {
struct Group {
  detail::Dg4Block dg;
  Cg4Block* cg;
  Group() { cg = static_cast<Cg4Block*>(static_cast<IDataGroup&>(dg).CreateChannelGroup("G")); }
  Cn4Block* Channel(const char* name, ChannelDataType t, uint64_t bytes, ChannelType ct = ChannelType::FixedLength, bool invalid = true) {
    auto* c = static_cast<Cn4Block*>(static_cast<IChannelGroup*>(cg)->CreateChannel(name));
    c->Type(ct);
    c->DataType(t);
    c->DataBytes(bytes);
    if (invalid) c->Flags(c->Flags() | CnFlag::InvalidValid);
    return c;
  }
};
bool IsText(ChannelDataType t) { return t >= ChannelDataType::StringAscii && t <= ChannelDataType::StringUTF16Be; }
}  // namespace

// Fixed length byte arrays: stored unchanged, padded with zeros or cut at the
// channel length; nothing else in the record changes.
VP_CONTRACT(bytes_fixed) {
  static const ChannelDataType kType[3] = {ChannelDataType::ByteArray, ChannelDataType::MimeSample, ChannelDataType::MimeStream};
  const ChannelDataType t = kType[vp_choose(3, "type")];
  const uint64_t n = 1 + vp_choose(5, "size"), m = vp_choose(8, "length");
  Group g;
  Cn4Block* a = g.Channel("A", ChannelDataType::UnsignedIntegerLe, 2);
  Cn4Block* b = g.Channel("B", t, n);
  Cn4Block* c = g.Channel("C", ChannelDataType::UnsignedIntegerLe, 2);
  g.cg->PrepareForWriting();
  auto& buf = g.cg->SampleBuffer();
  vp_assert(b->ByteOffset() == 2 && c->ByteOffset() == 2 + n && buf.size() == 5 + n, "layout");
  vp_nd_bytes(buf.data(), buf.size(), "stale");
  const auto before = buf;
  const auto value = vp_vec(m, "value");
  const bool valid = vp_nd_bool("valid");
  b->SetChannelValue(value, valid);
  std::vector<uint8_t> out;
  vp_assert(b->GetChannelValue(buf, out) == valid, "valid_flag_round_trip");
  vp_assert(out.size() == n, "length_is_the_channel_length");
  bool same = true;
  for (size_t i = 0; i < n && i < out.size(); ++i) same = same & (out[i] == (i < m ? value[i] : 0));
  vp_assert(same, "bytes_round_trip");
  uint64_t x = 0, y = 0;
  vp_assert(a->GetChannelValue(buf, x) == a->GetChannelValue(before, y) && x == y, "other_channels_unchanged");
  vp_assert(c->GetChannelValue(buf, x) == c->GetChannelValue(before, y) && x == y, "other_channels_unchanged");
  vp_reach("stored");
}

// Fixed length text: what fits (with its terminator) reads back.
VP_CONTRACT(text_fixed) {
  const bool ascii = vp_choose(2, "type") != 0;
  const uint64_t n = 1 + vp_choose(5, "size"), m = vp_choose(8, "length");
  Group g;
  Cn4Block* a = g.Channel("A", ChannelDataType::UnsignedIntegerLe, 2);
  Cn4Block* b = g.Channel("B", ascii ? ChannelDataType::StringAscii : ChannelDataType::StringUTF8, n);
  Cn4Block* c = g.Channel("C", ChannelDataType::UnsignedIntegerLe, 2);
  g.cg->PrepareForWriting();
  auto& buf = g.cg->SampleBuffer();
  vp_nd_bytes(buf.data(), buf.size(), "stale");
  const auto before = buf;
  std::string value;
  for (uint64_t i = 0; i < m; ++i) {
    const uint8_t ch = vp_nd_u8("char");
    vp_assume(ch != 0 && (!ascii || ch < 0x80));
    value.push_back(static_cast<char>(ch));
  }
  const bool valid = vp_nd_bool("valid");
  b->SetChannelValue(value, valid);
  std::string out = "x";
  vp_assert(b->GetChannelValue(buf, out) == valid, "valid_flag_round_trip");
  const uint64_t fit = m < n ? m : n - 1;
  vp_assert(out.size() == fit, "text_length");
  bool same = true;
  for (size_t i = 0; i < fit && i < out.size(); ++i) same = same & (out[i] == value[i]);
  vp_assert(same, "text_round_trip");
  uint64_t x = 0, y = 0;
  vp_assert(a->GetChannelValue(buf, x) == a->GetChannelValue(before, y) && x == y, "other_channels_unchanged");
  vp_assert(c->GetChannelValue(buf, x) == c->GetChannelValue(before, y) && x == y, "other_channels_unchanged");
  vp_reach("stored");
}

// Variable length values kept by the channel: every earlier sample still reads
// its own value after later ones are stored.
VP_CONTRACT(vlsd_values) {
  const unsigned kind = static_cast<unsigned>(vp_choose(3, "type"));  // bytes, UTF-8, ASCII
  static const ChannelDataType kType[3] = {ChannelDataType::ByteArray, ChannelDataType::StringUTF8, ChannelDataType::StringAscii};
  Group g;
  Cn4Block* a = g.Channel("A", ChannelDataType::UnsignedIntegerLe, 2);
  Cn4Block* b = g.Channel("B", kType[kind], 0, ChannelType::VariableLength);
  g.cg->PrepareForWriting();
  auto& buf = g.cg->SampleBuffer();
  vp_assert(a->ByteOffset() == 0 && b->ByteOffset() == 2 && b->BitCount() == 64 && buf.size() == 11, "index_is_64_bit");
  std::vector<uint8_t> rec[3], val[3]; bool valid[3];
  for (int k = 0; k < 3; ++k) {
    const uint64_t m = vp_choose(4, k == 0 ? "m0" : k == 1 ? "m1" : "m2");
    val[k] = vp_vec(m, "value");
    valid[k] = vp_nd_bool("valid");
    if (kind != 0) for (uint8_t x : val[k]) vp_assume(x != 0 && (kind == 1 || x < 0x80));
    if (kind == 0) b->SetChannelValue(val[k], valid[k]);
    else b->SetChannelValue(std::string(val[k].begin(), val[k].end()), valid[k]);
    rec[k] = buf;
  }
  for (int k = 0; k < 3; ++k) {
    std::vector<uint8_t> out(1, 7);
    bool ok;
    if (kind == 0) ok = b->GetChannelValue(rec[k], out);
    else { std::string s = "x"; ok = b->GetChannelValue(rec[k], s); out.assign(s.begin(), s.end()); }
    vp_assert(out.size() == val[k].size(), "variable_length_kept");
    bool same = true;
    for (size_t i = 0; i < out.size() && i < val[k].size(); ++i) same = same & (out[i] == val[k][i]);
    vp_assert(same, "variable_value_kept");

    vp_assert(ok == valid[k], "valid_flag_kept");
  }
  vp_reach("stored");
}

// A channel read from a file may claim any position, size and types; reading it
// from any record never touches memory outside the record, never throws, and
// reports invalid when the value does not lie in the record.
namespace {
bool Read(Cn4Block* b, const std::vector<uint8_t>& rec, unsigned as) {
  switch (as) {
    case 0: { uint64_t v = 0; return b->GetChannelValue(rec, v); }
    case 1: { int64_t v = 0; return b->GetChannelValue(rec, v); }
    case 2: { std::vector<uint8_t> v; return b->GetChannelValue(rec, v); }
    default: { std::string v; return b->GetChannelValue(rec, v); }
  }
}
}
VP_CONTRACT(hostile_numeric) {
  Group g;
  const unsigned dt = static_cast<unsigned>(vp_choose(18, "datatype"));
  if (dt >= 6 && dt <= 12) vp_path_end();
  Cn4Block* b = g.Channel("B", ChannelDataType::UnsignedIntegerLe, 4, ChannelType::FixedLength, vp_choose(2, "invalidflag") != 0);
  const uint64_t size = vp_choose(3, "size");
  b->data_type_ = static_cast<uint8_t>(dt);
  const uint32_t byte_offset = vp_nd_u32("byte_offset"), bit_count = vp_nd_u32("bit_count");
  const uint8_t bit_offset = vp_nd_u8("bit_offset");
  vp_assume(byte_offset < (1u << 28));   // records are below 256 MB
  b->ByteOffset(byte_offset); b->BitOffset(bit_offset); b->BitCount(bit_count);
  b->invalid_bit_pos_ = vp_nd_u32("invalid_pos");
  const auto rec = vp_vec(size, "record");
  const bool ok = Read(b, rec, static_cast<unsigned>(vp_choose(3, "as")));
  if (dt < 6 && ok) {
    vp_assert(static_cast<uint64_t>(byte_offset) * 8 + bit_offset + bit_count <= size * 8, "valid_value_lies_inside_the_record");
    vp_reach("numeric");
  }
  vp_reach("end");
}
VP_CONTRACT(hostile_bytes) {
  Group g;
  const unsigned dt = 6 + static_cast<unsigned>(vp_choose(7, "datatype"));
  Cn4Block* b = g.Channel("B", static_cast<ChannelDataType>(dt), 4, ChannelType::FixedLength, vp_choose(2, "invalidflag") != 0);
  const uint64_t size = vp_choose(4, "size");
  const uint32_t byte_offset = vp_nd_u32("byte_offset");
  b->ByteOffset(byte_offset); b->BitCount(static_cast<uint32_t>(8 * vp_choose(5, "bytes")));
  b->invalid_bit_pos_ = vp_nd_u32("invalid_pos");
  const auto rec = vp_vec(size, "record");
  const unsigned as = IsText(static_cast<ChannelDataType>(dt)) && vp_choose(2, "as") ? 3 : 2;
  const bool ok = Read(b, rec, as);
  if (ok) vp_assert(static_cast<uint64_t>(byte_offset) + b->BitCount() / 8 <= size, "valid_value_lies_inside_the_record");
  if (ok) vp_reach("bytes");
  vp_reach("end");
}
// Variable length value whose index (any 64-bit number) points into signal
// data of any content; MLSD length of any value.
VP_CONTRACT(hostile_vlsd) {
  Group g;
  const unsigned dt = 6 + static_cast<unsigned>(vp_choose(7, "datatype"));
  Cn4Block* b = g.Channel("B", static_cast<ChannelDataType>(dt), 0, ChannelType::VariableLength, vp_choose(2, "invalidflag") != 0);
  b->ByteOffset(0); b->BitCount(64);
  const uint64_t sd = vp_choose(8, "sdsize");
  b->data_list_ = vp_vec(sd, "sd");
  uint64_t index = vp_nd_u64("index");
  std::vector<uint8_t> rec(9);
  for (int i = 0; i < 8; ++i) rec[i] = static_cast<uint8_t>(index >> (8 * i));
  rec[8] = vp_nd_u8("invalid");
  // The claimed length is allocated before it is checked; sizes above 7 bytes
  // beyond the data are represented by 8 and 15.
  if (index < sd && sd - index >= 4) {
    index = vp_concrete_u64(index);
    const uint8_t* p = b->data_list_.data() + index;
    vp_assume(p[1] == 0 && p[2] == 0 && p[3] == 0 && (p[0] <= 8 || p[0] == 15));
    (void)vp_concrete_u64(p[0]);
  }
  const unsigned as = IsText(static_cast<ChannelDataType>(dt)) && vp_choose(2, "as") ? 3 : 2;
  std::vector<uint8_t> v; std::string s;
  const bool ok = as == 3 ? b->GetChannelValue(rec, s) : b->GetChannelValue(rec, v);
  if (ok) {
    vp_assert(index <= sd && sd - index >= 4, "valid_index_lies_inside_the_signal_data");
    const uint64_t len = b->data_list_[index];
    vp_assert(index + 4 + len <= sd, "valid_length_lies_inside_the_signal_data");
    if (as == 2 && dt >= 10) {
      vp_assert(v.size() == len, "length_is_the_stored_length");
      bool same = true;
      for (uint64_t i = 0; i < len && i < v.size(); ++i) same = same & (v[i] == b->data_list_[index + 4 + i]);
      vp_assert(same, "bytes_are_the_stored_bytes");
      vp_reach("read");
    }
  }
  vp_reach("end");
}
// Maximum length value: the length member may hold any number.
VP_CONTRACT(hostile_mlsd) {
  Group g;
  Cn4Block* n = g.Channel("N", ChannelDataType::UnsignedIntegerLe, 1, ChannelType::FixedLength, false);
  Cn4Block* b = g.Channel("B", ChannelDataType::ByteArray, 4, ChannelType::MaxLength, false);
  n->ByteOffset(0); n->BitCount(8); b->ByteOffset(1); b->BitCount(32);
  b->MlsdChannel(n);
  const uint64_t size = vp_choose(7, "size");
  const auto rec = vp_vec(size, "record");
  if (size > 0) (void)vp_concrete_u64(rec[0]);
  std::vector<uint8_t> v;
  const bool ok = b->GetChannelValue(rec, v);
  if (ok) {
    vp_assert(size > 0 && v.size() == rec[0] && 1 + v.size() <= size, "length_is_the_stored_length");
    bool same = true;
    for (uint64_t i = 0; i < v.size(); ++i) same = same & (v[i] == rec[1 + i]);
    vp_assert(same, "bytes_are_the_stored_bytes");
    vp_reach("read");
  } else vp_assert(size == 0 || 1u + rec[0] > size, "value_inside_the_record_is_valid");
  vp_reach("end");
}
