// MOST events: every event is stored as the channels of its group describe it
// (mostmessage.cpp, mostconfigadapter.cpp).
#include "busutil.h"
#include "mdf/mostconfigadapter.h"
using namespace mdf;
using namespace vpbus;
namespace {
struct Fields {
  uint8_t bus, speed, transfer, dir, cack, pack, ack, index, rtype, state, count, layout; uint64_t src, dst; uint16_t specified, received, free, bound; uint32_t crc;
  bool failed, closed, shutdown; std::vector<uint8_t> data;
};
Fields Any(uint64_t n) {
  Fields f;
  f.bus = vp_nd_u8("bus"); f.speed = vp_nd_u8("speed") & 3; f.transfer = vp_nd_u8("transfer") & 1; f.dir = vp_nd_u8("dir") & 1;
  f.cack = vp_nd_u8("cack") & 7; f.pack = vp_nd_u8("pack") & 7; f.ack = vp_nd_u8("ack") & 15; f.index = vp_nd_u8("index"); f.rtype = vp_nd_u8("rtype") & 15;
  f.state = vp_nd_u8("state"); f.count = vp_nd_u8("count"); f.layout = vp_nd_u8("layout");
  f.src = vp_nd_u64("src") & 0xFFFFFFFFFFFF; f.dst = vp_nd_u64("dst") & 0xFFFFFFFFFFFF; f.free = vp_nd_u16("free"); f.bound = vp_nd_u16("bound");
  f.specified = vp_nd_u16("specified"); f.received = vp_nd_u16("received"); f.crc = vp_nd_u32("crc");
  f.failed = vp_nd_bool("failed"); f.closed = vp_nd_bool("closed"); f.shutdown = vp_nd_bool("shutdown"); f.data = vp_vec(n, "data");
  return f;
}
void SetEth(MostEthernetPacket& m, const Fields& f) {
  m.BusChannel(f.bus); m.Speed(static_cast<MostSpeed>(f.speed)); m.TransferType(static_cast<MostTransferType>(f.transfer)); m.Direction(static_cast<MostDirection>(f.dir));
  m.Source(f.src); m.Destination(f.dst); m.DataBytes(f.data); m.SpecifiedNofBytes(f.specified); m.ReceivedNofBytes(f.received); m.Crc(f.crc);
  m.CompleteAck(static_cast<MostCompleteAck>(f.cack)); m.PreemptiveAck(static_cast<MostPreemptiveAck>(f.pack)); m.TxAck(f.ack);
}
void SetMessage(MostMessage& m, const Fields& f) {
  SetEth(m, f);
  m.PacketIndex(f.index); m.TxFailed(f.failed); m.ControlMessageType(static_cast<MostControlMessageType>(f.rtype));
}
const char* const kGroup[9] = {"MOST_Message", "MOST_Packet", "MOST_EthernetPacket", "MOST_SignalState", "MOST_MaxPosInfo", "MOST_BoundDesc", "MOST_AllocTable", "MOST_SysLockState", "MOST_ShutdownFlag"};
}  // namespace

VP_CONTRACT(most_fields) {
  const Fields f = Any(2);
  MostMessage m; SetMessage(m, f);
  vp_assert(m.BusChannel() == f.bus && static_cast<uint8_t>(m.Speed()) == f.speed && static_cast<uint8_t>(m.TransferType()) == f.transfer &&
            static_cast<uint8_t>(m.Direction()) == f.dir, "base_fields_kept");
  vp_assert(m.Source() == f.src && m.Destination() == f.dst && m.SpecifiedNofBytes() == f.specified && m.ReceivedNofBytes() == f.received && m.Crc() == f.crc, "packet_numbers_kept");
  vp_assert(static_cast<uint8_t>(m.CompleteAck()) == f.cack && static_cast<uint8_t>(m.PreemptiveAck()) == f.pack && m.TxAck() == f.ack && m.PacketIndex() == f.index, "acknowledges_kept");
  vp_assert(m.TxFailed() == f.failed && static_cast<uint8_t>(m.ControlMessageType()) == f.rtype && SameBytes(m.DataBytes(), f.data), "message_fields_kept");
  // Setting the payload never lowers the byte counts and covers the payload.
  m.DataBytes(std::vector<uint8_t>(5));
  const auto up = [](uint16_t v) { return v > 5 ? v : uint16_t{5}; };
  vp_assert(m.SpecifiedNofBytes() == up(f.specified) && m.ReceivedNofBytes() == up(f.received), "byte_counts_cover_payload");
  vp_reach("set");
}

VP_CONTRACT(most_record) {
  const unsigned k = static_cast<unsigned>(vp_choose(9, "event"));
  Writer w; detail::Dg4Block dg;
  const bool mand = vp_choose(2, "mandatory") != 0, adapter = vp_choose(2, "adapter") != 0;
  w.BusType(MdfBusType::MOST);
  const auto st = static_cast<MdfStorageType>(vp_choose(3, "storage"));
  w.StorageType(st);
  w.MandatoryMembersOnly(adapter ? !mand : mand);
  MostConfigAdapter ad(w);
  ad.MandatoryMembersOnly(mand);
  ad.CreateConfig(dg);
  PrepareAll(dg);
  IChannelGroup* g = FindGroup(dg, kGroup[k]);
  vp_assert(g != nullptr, "group_created");
  if (g == nullptr) return;
  const bool payload = k < 3 || k == 6;
  static const uint64_t kLen[4] = {0, 1, 45, 300};
  const uint64_t n = payload ? kLen[vp_choose(4, "n")] : 3;
  const Fields f = Any(n);
  MostMessage m0; MostPacket m1; MostEthernetPacket m2; MostSignalState m3; MostMaxPosInfo m4; MostBoundDesc m5; MostAllocTable m6; MostSysLockState m7; MostShutdownFlag m8;
  IMostEvent* const all[9] = {&m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8};
  SetMessage(m0, f); SetEth(m1, f); m1.PacketIndex(f.index); SetEth(m2, f);
  m3.SignalState(static_cast<MostStateOfSignal>(f.state)); m4.DeviceCount(f.count); m5.BoundaryCount(f.bound);
  m6.FreeByteCount(f.free); m6.TableLayout(static_cast<MostTableLayout>(f.layout)); m6.TableData(f.data); m7.RingIsClosed(f.closed); m8.ShutdownFlag(f.shutdown);
  IMostEvent& m = *all[k];
  m.BusChannel(f.bus);
  m.DataGroup(&dg);
  DirtySampleBuffer(*g);
  Queue q(w, dg);
  q.SaveMostMessage(*g, vp_nd_u64("time"), m);
  vp_assert(q.All().size() == 1, "exactly_one_sample_recorded");
  const SampleRecord& r = q.All().front();
  vp_assert(r.record_id == g->RecordId(), "sample_carries_record_id");
  CheckRecordSize(*g, r.record_buffer);
  CheckChannelsInside(*g, r.record_buffer.size());
  Bus b{*g, r.record_buffer, kGroup[k]};
  b.Member("BusChannel", f.bus, true, "bus_channel");
  if (k < 3) {
    const uint64_t mask = k == 2 ? 0xFFFFFFFFFFFFull : 0xFFFFull;
    b.Member("Speed", f.speed, true, "speed"); b.Member("TransferType", f.transfer, true, "transfer_type"); b.Member("Dir", f.dir, true, "dir");
    b.Member("Source", f.src & mask, true, "source"); b.Member("Destination", f.dst & mask, true, "destination");
    b.Member("SpecifiedDataByteCount", f.specified, true, "specified_count"); b.Member("ReceivedDataByteCount", f.received, true, "received_count");
    b.Member("DataLength", n, true, "data_length");
    if (!mand) {
      b.Member("CRC", f.crc, true, "crc"); b.Member("CAck", f.cack, true, "complete_ack"); b.Member("PAck", f.pack, true, "preemptive_ack");
      b.Member("AckNAck", f.ack, true, "tx_ack");
      if (k < 2) b.Member("PIndex", f.index, true, "packet_index");
      if (k == 0) { b.Member("TxFailed", f.failed, true, "tx_failed"); b.Member("RType", f.rtype, true, "control_type"); }
    }
  }
  if (k == 3) b.Member("State", f.state, true, "state");
  if (k == 4) b.Member("DeviceCount", f.count, true, "device_count");
  if (k == 5) b.Member("SBC", f.bound, true, "boundary");
  if (k == 6) { b.Member("FreeByteCount", f.free, true, "free_count"); b.Member("TableLayout", f.layout, true, "layout"); b.Member("TableLength", n, true, "table_length"); }
  if (k == 7) b.Member("SysLockState", f.closed, true, "lock_state");
  if (k == 8) b.Member("ShutdownFlag", f.shutdown, true, "shutdown");
  if (payload) { CheckPayload(*g, b.base + (k == 6 ? ".TableData" : ".DataBytes"), r, MdfStorageType::VlsdStorage, f.data, 0); CheckVlsdLink(dg, *g, b.base + (k == 6 ? ".TableData" : ".DataBytes"), st != MdfStorageType::FixedLengthStorage); }
  else vp_assert(!r.vlsd_data, "no_payload_channel_no_detached_data");
  vp_reach("recorded");
}
