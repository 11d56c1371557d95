// Contracts of the channel value codec (ichannel.cpp, cn4block.cpp,
// dbchelper.cpp): what is stored by SetChannelValue is what GetChannelValue
// returns, nothing else in the record changes, and reading follows the bit
// layout rules of the MDF standard for every alignment.
#include "vp.h"
#include <cmath>
#include "mdf/ichannel.h"
#include "mdf/ichannelgroup.h"
#include "mdf/ichannelarray.h"
#include "cg4block.h"
#include "cn4block.h"
#include "dg4block.h"
using namespace mdf;
using mdf::detail::Cg4Block;
using mdf::detail::Cn4Block;
namespace {
// MDF 4 data types 0..5: unsigned LE/BE, signed LE/BE, float LE/BE.
ChannelDataType NumType(unsigned t) { return static_cast<ChannelDataType>(t); }
struct Group {
  detail::Dg4Block dg;
  Cg4Block* cg;
  Group() { cg = static_cast<Cg4Block*>(static_cast<IDataGroup&>(dg).CreateChannelGroup("G")); }
  Cn4Block* Channel(const char* name, ChannelDataType t, uint64_t bytes, bool invalid = false) {
    auto* c = static_cast<Cn4Block*>(static_cast<IChannelGroup*>(cg)->CreateChannel(name));
    c->Type(ChannelType::FixedLength);
    c->DataType(t);
    c->DataBytes(bytes);
    if (invalid) c->Flags(c->Flags() | CnFlag::InvalidValid);
    return c;
  }
};
uint64_t Mask(uint64_t bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }
// The number at [bit offset, bit count) of the bytes, by the MDF rules: take
// the bytes that the value touches as one integer of the given byte order,
// drop the offset bits, keep count bits.
uint64_t Spec(const uint8_t* p, bool le, unsigned offset, unsigned count) {
  const unsigned span = (offset + count + 7) / 8;
  unsigned __int128 v = 0;
  for (unsigned i = 0; i < span; ++i) {
    const unsigned at = le ? span - 1 - i : i;
    v = (v << 8) | p[at];
  }
  return static_cast<uint64_t>(v >> offset) & Mask(count);
}
int64_t SignExtend(uint64_t v, unsigned count) {
  const uint64_t m = 1ull << (count - 1);
  return static_cast<int64_t>((v ^ m) - m);
}
}  // namespace

// Reading integers: every bit offset (0..7), bit count (1..64), byte order and
// sign, any byte position, any record content.
VP_CONTRACT(codec_read_int) {
  const unsigned t = static_cast<unsigned>(vp_choose(4, "type"));
  const unsigned off = static_cast<unsigned>(vp_choose(8, "bitoffset"));
  const unsigned cnt = 1 + static_cast<unsigned>(vp_choose(64, "bitcount"));
  const bool le = (t & 1) == 0;
  const unsigned span = (off + cnt + 7) / 8;
  const unsigned at = vp_choose(2, "byteoffset") != 0 ? 3 : 0;
  const unsigned spare = static_cast<unsigned>(vp_choose(2, "spare"));
  Group g;
  Cn4Block* c = g.Channel("C", NumType(t), 8);
  c->ByteOffset(at); c->BitOffset(static_cast<uint16_t>(off)); c->BitCount(cnt);
  const auto rec = vp_vec(at + span + spare, "record");
  const uint64_t want = Spec(rec.data() + at, le, off, cnt);
  if (t < 2) {
    uint64_t v = 0;
    vp_assert(c->GetChannelValue(rec, v), "value_is_valid");
    vp_assert(v == want, "unsigned_follows_the_bit_layout");
    vp_reach("unsigned");
  } else {
    int64_t v = 0;
    vp_assert(c->GetChannelValue(rec, v), "value_is_valid");
    vp_assert(v == SignExtend(want, cnt), "signed_follows_the_bit_layout");
    vp_reach("signed");
  }
  // One byte less: refused, never read.
  std::vector<uint8_t> cut(rec.begin(), rec.begin() + (at + span - 1));
  uint64_t u = 7;
  vp_assert(!c->GetChannelValue(cut, u), "short_record_is_refused");
}

// Reading floats: double, float and half, both byte orders, any alignment.
VP_CONTRACT(codec_read_float) {
  const bool le = vp_choose(2, "type") == 0;
  const unsigned size = static_cast<unsigned>(vp_choose(2, "size"));
  const unsigned cnt = size == 0 ? 32 : 64;
  const unsigned off = vp_choose(2, "bitoffset") ? 5 : 0;
  const unsigned at = vp_choose(2, "byteoffset") ? 2 : 0;
  const unsigned span = (off + cnt + 7) / 8;
  Group g;
  Cn4Block* c = g.Channel("C", NumType(le ? 4 : 5), 8);
  c->ByteOffset(at); c->BitOffset(static_cast<uint16_t>(off)); c->BitCount(cnt);
  const auto rec = vp_vec(at + span, "record");
  const uint64_t bits = Spec(rec.data() + at, le, off, cnt);
  double v = 0;
  vp_assert(c->GetChannelValue(rec, v), "value_is_valid");
  if (cnt == 64) {
    vp_assert(vp_dbits(v) == bits, "double_bits_unchanged");
    vp_reach("double");
  } else if (cnt == 32) {
    float f; const uint32_t b32 = static_cast<uint32_t>(bits); memcpy(&f, &b32, 4);
    vp_assert((f != f && v != v) || (v == static_cast<double>(f) && std::signbit(v) == std::signbit(f)), "float_widened_exactly");
    vp_reach("float");
  }
  std::vector<uint8_t> cut(rec.begin(), rec.begin() + (at + span - 1));
  double u = 0;
  vp_assert(!c->GetChannelValue(cut, u), "short_record_is_refused");
}

// Every half precision value (all 65536, enumerated).
VP_CONTRACT(codec_read_half) {
  const bool le = vp_choose(2, "type") == 0;
  const unsigned block = static_cast<unsigned>(vp_choose(64, "block"));
  Group g;
  Cn4Block* c = g.Channel("C", NumType(le ? 4 : 5), 2);
  c->ByteOffset(1); c->BitOffset(0); c->BitCount(16);
  std::vector<uint8_t> rec(3, 0);
  bool ok = true;
  for (unsigned i = 0; i < 1024; ++i) {
    const unsigned bits = block * 1024 + i;
    rec[le ? 1 : 2] = static_cast<uint8_t>(bits); rec[le ? 2 : 1] = static_cast<uint8_t>(bits >> 8);
    double v = 0;
    ok = c->GetChannelValue(rec, v) && ok;
    const unsigned e = (bits >> 10) & 31, m = bits & 1023; const bool neg = (bits >> 15) & 1;
    if (e == 31) {
      if (m != 0) ok = ok && v != v; else ok = ok && v == (neg ? -HUGE_VAL : HUGE_VAL);
    } else {
      // value = (e ? 1024 + m : m) * 2^(max(e,1) - 25)
      const uint64_t scale_bits = static_cast<uint64_t>((e != 0 ? e : 1) - 25 + 1023) << 52;
      double scale; memcpy(&scale, &scale_bits, 8);
      double want = static_cast<double>(e != 0 ? 1024 + m : m) * scale; if (neg) want = -want;
      ok = ok && v == want && vp_dbits(v) >> 63 == (neg ? 1u : 0u);
    }
  }
  vp_assert(ok, "half_value");
  vp_reach("half");
}

// Writing: the value read back is the value written (modulo the size of the
// channel), the valid flag is returned, and no other byte, bit or channel of
// the record changes.
VP_CONTRACT(codec_write) {
  const unsigned t = static_cast<unsigned>(vp_choose(6, "type"));
  static const uint64_t kIntSize[4] = {1, 2, 4, 8};
  const uint64_t bytes = t < 4 ? kIntSize[vp_choose(4, "size")] : (vp_choose(2, "fsize") ? 8 : 4);
  const bool flag = vp_choose(2, "invalidflag") != 0;
  const bool flag_a = vp_choose(2, "invalidflag_a") != 0;
  Group g;
  Cn4Block* a = g.Channel("A", ChannelDataType::UnsignedIntegerLe, 2, flag_a);
  Cn4Block* b = g.Channel("B", NumType(t), bytes, flag);
  Cn4Block* c = g.Channel("C", ChannelDataType::UnsignedIntegerBe, 4, true);
  g.cg->PrepareForWriting();
  auto& buf = g.cg->SampleBuffer();
  vp_assert(a->ByteOffset() == 0 && b->ByteOffset() == 2 && c->ByteOffset() == 2 + bytes, "channels_packed_in_order");
  vp_assert(g.cg->NofDataBytes() == 6 + bytes && buf.size() == 6 + bytes + g.cg->NofInvalidBytes(), "record_size");
  vp_assert(g.cg->NofInvalidBytes() == 1, "one_invalid_bit_per_flagged_channel");
  vp_nd_bytes(buf.data(), buf.size(), "stale");
  const std::vector<uint8_t> before = buf;
  const bool valid = vp_nd_bool("valid");
  uint64_t a0 = 0, c0 = 0, a1 = 0, c1 = 0;
  const bool va0 = a->GetChannelValue(before, a0), vc0 = c->GetChannelValue(before, c0);
  bool vb = false;
  if (t < 2) {
    const uint64_t v = vp_nd_u64("value"); uint64_t r = 0;
    b->SetChannelValue(v, valid);
    vb = b->GetChannelValue(buf, r);
    vp_assert(r == (v & Mask(bytes * 8)), "unsigned_round_trip");
  } else if (t < 4) {
    const int64_t v = static_cast<int64_t>(vp_nd_u64("value")); int64_t r = 0;
    b->SetChannelValue(v, valid);
    vb = b->GetChannelValue(buf, r);
    vp_assert(r == SignExtend(static_cast<uint64_t>(v) & Mask(bytes * 8), static_cast<unsigned>(bytes * 8)), "signed_round_trip");
  } else if (bytes == 8) {
    const double v = vp_nd_double("value"); double r = 0;
    b->SetChannelValue(v, valid);
    vb = b->GetChannelValue(buf, r);
    vp_assert(vp_dbits(r) == vp_dbits(v), "double_round_trip");
  } else {
    const float v = vp_nd_float("value"); double r = 0;
    b->SetChannelValue(v, valid);
    vb = b->GetChannelValue(buf, r);
    vp_assert((v != v && r != r) || r == static_cast<double>(v), "float_round_trip");
  }
  vp_assert(vb == (valid || !flag), "valid_flag_round_trip");
  const bool va1 = a->GetChannelValue(buf, a1), vc1 = c->GetChannelValue(buf, c1);
  vp_assert(a0 == a1 && c0 == c1 && va0 == va1 && vc0 == vc1, "other_channels_unchanged");
  vp_assert(buf.size() == before.size(), "record_size_kept");
  bool same = true;
  for (size_t i = 0; i < 6 + bytes; ++i)
    if (i < 2 || i >= 2 + bytes) same = same & (buf[i] == before[i]);
  vp_assert(same, "other_bytes_unchanged");
  vp_reach("written");
}

// Array elements: element i of a channel array is written and read at its own
// place (and has its own invalid bit); an index outside the record is refused.
VP_CONTRACT(codec_array) {
  const unsigned t = static_cast<unsigned>(vp_choose(6, "type"));
  static const uint64_t kIntSize[4] = {1, 2, 4, 8};
  const uint64_t bytes = t < 4 ? kIntSize[vp_choose(4, "size")] : (vp_choose(2, "fsize") ? 8 : 4);
  const bool flag = vp_choose(2, "invalidflag") != 0;
  Group g;
  Cn4Block* a = g.Channel("A", ChannelDataType::UnsignedIntegerLe, 1, true);
  Cn4Block* b = g.Channel("B", NumType(t), bytes, flag);
  IChannelArray* arr = b->CreateChannelArray();
  vp_assert(arr != nullptr, "array_created");
  arr->Shape({3});
  Cn4Block* c = g.Channel("C", ChannelDataType::UnsignedIntegerLe, 2, true);
  g.cg->PrepareForWriting();
  auto& buf = g.cg->SampleBuffer();
  vp_assert(b->ArraySize() == 3 && a->ArraySize() == 1, "array_size");
  vp_assert(c->ByteOffset() == 1 + 3 * bytes && g.cg->NofDataBytes() == 3 + 3 * bytes, "array_occupies_its_elements");
  vp_assert(g.cg->NofInvalidBytes() == 1, "invalid_bits_per_element");
  vp_nd_bytes(buf.data(), buf.size(), "stale");
  const std::vector<uint8_t> before = buf;
  const uint64_t i = vp_choose(4, "index");
  const bool valid = vp_nd_bool("valid");
  uint64_t bits = vp_nd_u64("value");
  if (t < 2) b->SetChannelValue(bits, valid, i);
  else if (t < 4) b->SetChannelValue(static_cast<int64_t>(bits), valid, i);
  else if (bytes == 8) { double d; memcpy(&d, &bits, 8); b->SetChannelValue(d, valid, i); }
  else { float f; uint32_t w = static_cast<uint32_t>(bits); vp_assume((w & 0x7F800000u) != 0x7F800000u); memcpy(&f, &w, 4); b->SetChannelValue(f, valid, i); }
  vp_assert(buf.size() == before.size(), "record_size_kept");
  if (i == 3) { // outside
    bool same = true;
    for (size_t k = 0; k < 1 + 3 * bytes; ++k) same = same & (buf[k] == before[k]);
    vp_assert(same, "index_outside_array_writes_no_element");
    vp_reach("outside");
    return;
  }
  const bool le = (t & 1) == 0;
  vp_assert(Spec(buf.data() + 1 + i * bytes, le, 0, static_cast<unsigned>(bytes * 8)) == (bits & Mask(bytes * 8)), "element_stored_in_its_byte_order");
  uint64_t u = 0; int64_t s = 0; double d = 0; bool ok;
  if (t < 2) { ok = b->GetChannelValue(buf, u, i); vp_assert(u == (bits & Mask(bytes * 8)), "element_round_trip"); }
  else if (t < 4) { ok = b->GetChannelValue(buf, s, i); vp_assert(s == SignExtend(bits & Mask(bytes * 8), static_cast<unsigned>(bytes * 8)), "element_round_trip"); }
  else { ok = b->GetChannelValue(buf, d, i); if (bytes == 8) vp_assert(vp_dbits(d) == bits, "element_round_trip"); }
  vp_assert(ok == (valid || !flag), "element_valid_flag");
  bool same = true;
  for (size_t k = 0; k < 3 + 3 * bytes; ++k)
    if (k < 1 + i * bytes || k >= 1 + (i + 1) * bytes) same = same & (buf[k] == before[k]);
  vp_assert(same, "other_elements_unchanged");
  for (uint64_t k = 0; k < 3; ++k) if (k != i) {
    uint64_t x, y; double p, q;
    if (t < 4) vp_assert(b->GetChannelValue(buf, x, k) == b->GetChannelValue(before, y, k), "other_elements_valid_flags");
    else vp_assert(b->GetChannelValue(buf, p, k) == b->GetChannelValue(before, q, k), "other_elements_valid_flags");
  }
  uint64_t x = 0, y = 0;
  vp_assert(a->GetChannelValue(buf, x) == a->GetChannelValue(before, y) && x == y, "other_channels_unchanged");
  vp_assert(c->GetChannelValue(buf, x) == c->GetChannelValue(before, y) && x == y, "other_channels_unchanged");
  vp_reach("element");
}
