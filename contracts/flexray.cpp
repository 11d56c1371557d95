// FlexRay events: every event is stored as the channels of its group describe
// it (flexraymessage.cpp, flexrayconfigadapter.cpp).
#include "busutil.h"
#include "mdf/flexrayconfigadapter.h"
using namespace mdf;
using namespace vpbus;
namespace {
struct Fields {
  uint8_t bus, cycle, channel, dir, payload, sw8, bits, bytes; uint16_t id, header, sw, update; uint32_t crc, length;
  bool reserved, preamble, null, sync, startup, syntax, content, boundary, conflict, valid, mux; uint8_t mask, type; std::vector<uint8_t> data;
};
Fields Any(uint64_t n) {
  Fields f;
  f.bus = vp_nd_u8("bus"); f.cycle = vp_nd_u8("cycle") & 0x3F; f.channel = vp_nd_u8("channel") & 1; f.dir = vp_nd_u8("dir") & 1;
  f.payload = vp_nd_u8("payload"); f.bits = vp_nd_u8("bits") & 7; f.bytes = vp_nd_u8("bytes"); f.sw8 = vp_nd_u8("length8");
  f.id = vp_nd_u16("id") & 0x7FF; f.header = vp_nd_u16("header"); f.sw = vp_nd_u16("switch"); f.update = vp_nd_u16("update") & 0xFFF;
  f.crc = vp_nd_u32("crc") & 0xFFFFFF; f.length = vp_nd_u32("length");
  f.reserved = vp_nd_bool("reserved"); f.preamble = vp_nd_bool("preamble"); f.null = vp_nd_bool("null"); f.sync = vp_nd_bool("sync");
  f.startup = vp_nd_bool("startup"); f.syntax = vp_nd_bool("syntax"); f.content = vp_nd_bool("content"); f.boundary = vp_nd_bool("boundary");
  f.conflict = vp_nd_bool("conflict"); f.valid = vp_nd_bool("valid"); f.mux = vp_nd_bool("mux");
  f.mask = vp_nd_u8("mask") & 3; vp_assume(f.mask != 0); f.type = vp_nd_u8("type") & 3;
  f.data = vp_vec(n, "data");
  return f;
}
void SetBase(IFlexRayEvent& m, const Fields& f) {
  m.BusChannel(f.bus); m.FrameId(f.id); m.CycleCount(f.cycle); m.Channel(static_cast<FlexRayChannel>(f.channel)); m.Direction(static_cast<FlexRayDirection>(f.dir));
}
void SetFrame(FlexRayFrame& m, const Fields& f) {
  SetBase(m, f);
  m.PayloadLength(f.payload); m.Crc(f.crc); m.HeaderCrc(f.header); m.Reserved(f.reserved); m.PayloadPreamble(f.preamble);
  m.NullFrame(static_cast<FlexRayNullFlag>(f.null)); m.SyncFrame(f.sync); m.StartupFrame(f.startup); m.FrameLength(f.length); m.DataBytes(f.data);
}
void SetError(FlexRayErrorFrame& m, const Fields& f) {
  SetFrame(m, f);
  m.Syntax(f.syntax); m.Content(f.content); m.Boundary(f.boundary); m.TxConflict(f.conflict); m.Valid(f.valid);
}
void SetPdu(FlexRayPdu& m, const Fields& f) {
  SetBase(m, f);
  m.Length(f.sw8); m.Multiplexed(f.mux); m.Switch(f.sw); m.Valid(f.valid); m.UpdateBitPos(f.update); m.ByteOffset(f.bytes); m.BitOffset(f.bits); m.DataBytes(f.data);
}
void SetSymbol(FlexRaySymbol& m, const Fields& f) {
  SetBase(m, f);
  m.ChannelMask(static_cast<FlexRayChannelMask>(f.mask)); m.Length(f.sw8); m.Type(static_cast<FlexRaySymbolType>(f.type));
}
void CheckBase(const IFlexRayEvent& m, const Fields& f) {
  vp_assert(m.BusChannel() == f.bus && m.FrameId() == f.id && m.CycleCount() == f.cycle && static_cast<uint8_t>(m.Channel()) == f.channel &&
            static_cast<uint8_t>(m.Direction()) == f.dir, "base_fields_kept");
}
void CheckFrame(const FlexRayFrame& m, const Fields& f) {
  CheckBase(m, f);
  vp_assert(m.PayloadLength() == f.payload && m.Crc() == f.crc && m.HeaderCrc() == f.header && m.FrameLength() == f.length, "frame_numbers_kept");
  vp_assert(m.Reserved() == f.reserved && m.PayloadPreamble() == f.preamble && static_cast<bool>(m.NullFrame()) == f.null && m.SyncFrame() == f.sync &&
            m.StartupFrame() == f.startup, "frame_flags_kept");
  vp_assert(SameBytes(m.DataBytes(), f.data), "data_kept");
}
const char* const kGroup[6] = {"FLX_Frame", "FLX_Pdu", "FLX_FrameHeader", "FLX_NullFrame", "FLX_ErrorFrame", "FLX_Symbol"};
}  // namespace

VP_CONTRACT(flexray_fields) {
  const Fields f = Any(2);
  FlexRayErrorFrame e; SetError(e, f); CheckFrame(e, f);
  vp_assert(e.Syntax() == f.syntax && e.Content() == f.content && e.Boundary() == f.boundary && e.TxConflict() == f.conflict && e.Valid() == f.valid, "error_flags_kept");
  FlexRayPdu p; SetPdu(p, f); CheckBase(p, f);
  vp_assert(p.Length() == f.sw8 && p.Multiplexed() == f.mux && p.Switch() == f.sw && p.Valid() == f.valid && p.UpdateBitPos() == f.update &&
            p.ByteOffset() == f.bytes && p.BitOffset() == f.bits && SameBytes(p.DataBytes(), f.data), "pdu_fields_kept");
  FlexRaySymbol s; SetSymbol(s, f); CheckBase(s, f);
  vp_assert(static_cast<uint8_t>(s.ChannelMask()) == f.mask && s.Length() == f.sw8 && static_cast<uint8_t>(s.Type()) == f.type, "symbol_fields_kept");
  vp_reach("set");
}

VP_CONTRACT(flexray_record) {
  const unsigned k = static_cast<unsigned>(vp_choose(6, "event"));
  Writer w; detail::Dg4Block dg;
  const bool mand = vp_choose(2, "mandatory") != 0, adapter = vp_choose(2, "adapter") != 0;
  w.BusType(MdfBusType::FlexRay);
  const auto st = static_cast<MdfStorageType>(vp_choose(3, "storage"));
  w.StorageType(st);
  w.MandatoryMembersOnly(adapter ? !mand : mand);
  FlexRayConfigAdapter ad(w);
  ad.MandatoryMembersOnly(mand);
  ad.CreateConfig(dg);
  PrepareAll(dg);
  IChannelGroup* g = FindGroup(dg, kGroup[k]);
  vp_assert(g != nullptr, "group_created");
  if (g == nullptr) return;
  const bool payload = k < 2 || (k < 5 && !mand);
  static const uint64_t kLen[4] = {0, 1, 8, 254};
  const uint64_t n = payload ? kLen[vp_choose(4, "n")] : 3;
  const Fields f = Any(n);
  FlexRayFrame m0; FlexRayPdu m1; FlexRayFrameHeader m2; FlexRayNullFrame m3; FlexRayErrorFrame m4; FlexRaySymbol m5;
  IFlexRayEvent* const all[6] = {&m0, &m1, &m2, &m3, &m4, &m5};
  SetFrame(m0, f); SetPdu(m1, f); SetFrame(m2, f); SetFrame(m3, f); SetError(m4, f); SetSymbol(m5, f);
  IFlexRayEvent& m = *all[k];
  m.DataGroup(&dg);
  DirtySampleBuffer(*g);
  Queue q(w, dg);
  q.SaveFlexRayMessage(*g, vp_nd_u64("time"), m);
  vp_assert(q.All().size() == 1, "exactly_one_sample_recorded");
  const SampleRecord& r = q.All().front();
  vp_assert(r.record_id == g->RecordId(), "sample_carries_record_id");
  CheckRecordSize(*g, r.record_buffer);
  CheckChannelsInside(*g, r.record_buffer.size());
  Bus b{*g, r.record_buffer, kGroup[k]};
  b.Member("BusChannel", f.bus, true, "bus_channel");
  b.Member("Cycle", f.cycle, true, "cycle");
  if (k == 5) {
    b.Member("FlxChannelMask", f.mask, true, "channel_mask");
    if (!mand) { b.Member("SymbolLength", f.sw8, true, "symbol_length"); b.Member("SymbolType", f.type, true, "symbol_type"); }
    vp_assert(!r.vlsd_data, "no_payload_channel_no_detached_data");
    vp_reach("recorded");
    return;
  }
  b.Member("ID", f.id, true, "id");
  b.Member("FlxChannel", f.channel, true, "channel");
  if (k != 1) b.Member("Dir", f.dir, true, "dir");
  if (k == 1) b.Member("PduLength", f.sw8, true, "pdu_length");
  else if (k == 0 || k == 2 || !mand) b.Member("PayloadLength", f.payload, true, "payload_length");
  if (payload) {
    b.Member(k == 2 ? "FillDataLength" : "DataLength", n, true, "data_length");
    CheckPayload(*g, b.base + (k == 2 ? ".FillDataBytes" : ".DataBytes"), r, MdfStorageType::VlsdStorage, f.data, 0);
    CheckVlsdLink(dg, *g, b.base + (k == 2 ? ".FillDataBytes" : ".DataBytes"), st != MdfStorageType::FixedLengthStorage);
  } else {
    vp_assert(!r.vlsd_data, "no_payload_channel_no_detached_data");
  }
  if (!mand && k == 1) {
    b.Member("IsMultiplexed", f.mux, true, "multiplexed"); b.Member("Switch", f.sw, true, "switch"); b.Member("ValidFlag", f.valid, true, "pdu_valid");
    b.Member("UpdateBitPos", f.update, true, "update_bit"); b.Member("PduByteOffset", f.bytes, true, "byte_offset"); b.Member("PduBitOffset", f.bits, true, "bit_offset");
  }
  if (!mand && k != 1) {
    b.Member("CRC", f.crc, true, "crc"); b.Member("HeaderCRC", f.header, true, "header_crc");
    b.Member("ReservedBitFlag", f.reserved, true, "reserved"); b.Member("PayloadPreambleFlag", f.preamble, true, "preamble");
    b.Member("NullFrameFlag", f.null, true, "null_frame"); b.Member("SyncFrameFlag", f.sync, true, "sync_frame");
    b.Member("StartUpFrameFlag", f.startup, true, "startup_frame"); b.Member("FrameLength", f.length, true, "frame_length");
    if (k == 4) {
      b.Member("IsSyntaxError", f.syntax, true, "syntax_error"); b.Member("IsContentError", f.content, true, "content_error");
      b.Member("IsSlotBndViolation", f.boundary, true, "boundary_violation"); b.Member("IsTxConflict", f.conflict, true, "tx_conflict");
      b.Member("IsValidFrame", f.valid, true, "valid_frame");
    }
  }
  vp_reach("recorded");
}
