// Contracts on CanMessage's field accessors (canmessage.cpp).
#include "vp.h"
#include "mdf/canmessage.h"
using namespace mdf;

namespace {
// ISO 11898 DLC table (the specification, independent of the code's table).
uint64_t SpecDlcLength(uint8_t dlc) {
  switch (dlc) {
    case 9: return 12; case 10: return 16; case 11: return 20; case 12: return 24;
    case 13: return 32; case 14: return 48; case 15: return 64;
    default: return dlc <= 8 ? dlc : 0;
  }
}
struct View {
  uint32_t id; uint8_t dlc, bus; uint16_t bitpos; uint8_t err; uint32_t dur, crc;
  uint64_t ts; bool f[10]; uint8_t len;
};
View Look(const CanMessage& m) {
  View v{};
  v.id = m.MessageId(); v.dlc = m.Dlc(); v.bus = m.BusChannel(); v.bitpos = m.BitPosition();
  v.err = static_cast<uint8_t>(m.ErrorType()); v.dur = m.FrameDuration(); v.crc = m.Crc();
  v.ts = vp_dbits(m.Timestamp()); v.len = m.DataLength();
  v.f[0] = m.Dir(); v.f[1] = m.Srr(); v.f[2] = m.Edl(); v.f[3] = m.Brs(); v.f[4] = m.Esi();
  v.f[5] = m.Rtr(); v.f[6] = m.WakeUp(); v.f[7] = m.SingleWire(); v.f[8] = m.R0(); v.f[9] = m.R1();
  return v;
}
bool SameView(const View& a, const View& b) {
  bool ok = a.id == b.id && a.dlc == b.dlc && a.bus == b.bus && a.bitpos == b.bitpos &&
     a.err == b.err && a.dur == b.dur && a.crc == b.crc && a.ts == b.ts && a.len == b.len;
  for (int i = 0; i < 10; ++i) ok = ok & (a.f[i] == b.f[i]);
  return ok;
}
void SetFlag(CanMessage& m, unsigned k, bool v) {
  switch (k) {
    case 0: m.Dir(v); break; case 1: m.Srr(v); break; case 2: m.Edl(v); break;
    case 3: m.Brs(v); break; case 4: m.Esi(v); break; case 5: m.Rtr(v); break;
    case 6: m.WakeUp(v); break; case 7: m.SingleWire(v); break; case 8: m.R0(v); break;
    default: m.R1(v); break;
  }
}
// An arbitrary reachable message.
void Arbitrary(CanMessage& m) {
  m.MessageId(vp_nd_u32("id0"));
  if (vp_nd_bool("ext0")) m.ExtendedId(vp_nd_bool("ext0v"));
  m.BusChannel(vp_nd_u8("bus0"));
  for (unsigned k = 0; k < 10; ++k) SetFlag(m, k, vp_nd_bool("flag0"));
  m.BitPosition(vp_nd_u16("bitpos0"));
  m.ErrorType(static_cast<CanErrorType>(vp_nd_u8("err0")));
  m.FrameDuration(vp_nd_u32("dur0"));
  m.Crc(vp_nd_u32("crc0"));
  m.Timestamp(vp_nd_double("ts0"));
  m.Dlc(vp_nd_u8("dlc0"));
}
}  // namespace

VP_CONTRACT(can_fields) {
  CanMessage m;
  Arbitrary(m);
  static const uint64_t kLength[4] = {0, 1, 9, 64};
  std::vector<uint8_t> data = vp_vec(kLength[vp_choose(4, "length0")], "data0");
  if (!data.empty()) {
    const uint8_t dlc = m.Dlc();
    m.DataBytes(data);
    m.Dlc(dlc);
  }
  View v = Look(m);
  switch (vp_choose(14, "setter")) {
    case 0: case 1: {
      unsigned k = static_cast<unsigned>(vp_choose(10, "flag"));
      bool b = vp_nd_bool("b");
      SetFlag(m, k, b);
      v.f[k] = b;
      break;
    }
    case 2: v.bus = vp_nd_u8("bus"); m.BusChannel(v.bus); break;
    case 3: v.bitpos = vp_nd_u16("bp"); m.BitPosition(v.bitpos); break;
    case 4: v.err = vp_nd_u8("err"); m.ErrorType(static_cast<CanErrorType>(v.err)); break;
    case 5: v.dur = vp_nd_u32("dur"); m.FrameDuration(v.dur); break;
    case 6: v.crc = vp_nd_u32("crc"); m.Crc(v.crc); break;
    case 7: { double d = vp_nd_double("ts"); v.ts = vp_dbits(d); m.Timestamp(d); break; }
    case 8: { uint8_t d = vp_nd_u8("dlc"); v.dlc = d & 15; m.Dlc(d); break; }
    case 9: {
      uint32_t id = vp_nd_u32("id");
      m.MessageId(id);
      v.id = id > 0x7FF ? (id | 0x80000000u) : id;
      vp_assert(m.CanId() == (id & 0x7FFFFFFFu), "can_id_without_flag_bit");
      vp_assert(m.ExtendedId() == (id > 0x7FF), "extended_iff_wider_than_11_bits");
      break;
    }
    case 10: {
      bool e = vp_nd_bool("ext");
      m.ExtendedId(e);
      v.id = e ? (v.id | 0x80000000u) : (v.id & 0x7FFFFFFFu);
      vp_assert(m.ExtendedId() == e, "extended_flag_readback");
      break;
    }
    case 11: {
      uint8_t n = vp_nd_u8("len");
      vp_assume(n <= 64);
      n = static_cast<uint8_t>(vp_concrete_u64(n));
      m.DataLength(n);
      v.len = n;
      data.resize(n);
      v.dlc = m.Dlc();
      vp_assert(SpecDlcLength(v.dlc) >= n, "dlc_covers_length");
      vp_assert(v.dlc == 0 || SpecDlcLength(v.dlc - 1) < n, "dlc_smallest");
      vp_reach("data_length");
      break;
    }
    case 12: {
      data = vp_vec(vp_choose(65, "payload"), "data");
      const auto n = static_cast<uint8_t>(data.size());
      m.DataBytes(data);
      v.len = n;
      v.dlc = m.Dlc();
      vp_assert(SpecDlcLength(v.dlc) >= n, "dlc_covers_length");
      vp_assert(v.dlc == 0 || SpecDlcLength(v.dlc - 1) < n, "dlc_smallest");
      vp_reach("data_bytes");
      break;
    }
    case 13: {
      m.Reset();
      const View r = Look(m);
      bool clear = r.len == 0 && m.DataBytes().empty();
      for (int i = 0; i < 10; ++i) clear = clear & !r.f[i];
      vp_assert(clear, "reset_clears_flags_and_payload");
      vp_reach("reset");
      return;
    }
  }
  vp_reach("checked");
  vp_assert(SameView(v, Look(m)), "setter_changes_exactly_its_field");
  bool same = m.DataBytes().size() == data.size();
  for (size_t i = 0; same && i < data.size(); ++i) same = same & (m.DataBytes()[i] == data[i]);
  vp_assert(same, "payload_is_the_one_set");
}

VP_CONTRACT(can_dlc_table) {
  uint8_t d = vp_nd_u8("dlc");
  vp_assert(CanMessage::DlcToLength(d) == SpecDlcLength(d), "dlc_to_length_is_iso11898");
  vp_reach("end");
}
