// Ethernet messages: independent fields, and every event is stored as the
// channels of its group describe it (ethmessage.cpp, ethconfigadapter.cpp).
#include "busutil.h"
#include "mdf/ethconfigadapter.h"
using namespace mdf;
using namespace vpbus;
namespace {
using Mac = std::array<uint8_t, 6>;
struct Fields {
  uint8_t bus; bool dir; int error; Mac src, dst; uint16_t type, received, length, pad; uint32_t crc, expected; std::vector<uint8_t> data;
};
Mac AnyMac(const char* n) { Mac m; for (auto& b : m) b = vp_nd_u8(n); return m; }
Fields Any(uint64_t n) {
  Fields f;
  f.bus = vp_nd_u8("bus"); f.dir = vp_nd_bool("dir"); f.error = vp_nd_bool("error") ? 1 : 0; f.src = AnyMac("src"); f.dst = AnyMac("dst");
  f.type = vp_nd_u16("type"); f.received = vp_nd_u16("received"); f.pad = vp_nd_u16("pad"); f.crc = vp_nd_u32("crc"); f.expected = vp_nd_u32("expected");
  f.data = vp_vec(n, "data"); f.length = static_cast<uint16_t>(n);
  return f;
}
void Set(EthMessage& m, const Fields& f) {
  m.BusChannel(f.bus); m.Dir(f.dir); m.ErrorType(static_cast<EthErrorType>(f.error)); m.Source(f.src); m.Destination(f.dst.data());
  m.EthType(f.type); m.ReceivedDataByteCount(f.received); m.PaddingByteCount(f.pad); m.Crc(f.crc); m.ExpectedCrc(f.expected); m.DataBytes(f.data);
}
bool SameMac(const Mac& a, const Mac& b) { bool ok = true; for (int i = 0; i < 6; ++i) ok = ok & (a[i] == b[i]); return ok; }
void Check(const EthMessage& m, const Fields& f) {
  vp_assert(m.BusChannel() == f.bus && m.Dir() == f.dir && static_cast<int>(m.ErrorType()) == f.error, "fields_kept");
  vp_assert(SameMac(m.Source(), f.src) && SameMac(m.Destination(), f.dst), "addresses_kept");
  vp_assert(m.EthType() == f.type && m.ReceivedDataByteCount() == f.received && m.DataLength() == f.length && m.PaddingByteCount() == f.pad, "counts_kept");
  vp_assert(m.Crc() == f.crc && m.ExpectedCrc() == f.expected, "checksums_kept");
  vp_assert(SameBytes(m.DataBytes(), f.data), "data_kept");
}
const char* const kGroup[4] = {"ETH_Frame", "ETH_ChecksumError", "ETH_LengthError", "ETH_ReceiveError"};
}  // namespace

VP_CONTRACT(eth_fields) {
  Fields f = Any(3);
  EthMessage m;
  Set(m, f);
  Check(m, f);
  vp_reach("set");
  const uint16_t v = vp_nd_u16("v16");
  switch (vp_choose(11, "which")) {
    case 0: f.bus = static_cast<uint8_t>(v); m.BusChannel(f.bus); break;
    case 1: f.dir = v & 1; m.Dir(f.dir); break;
    case 2: f.error = v & 1; m.ErrorType(static_cast<EthErrorType>(f.error)); break;
    case 3: f.src = AnyMac("mac"); m.Source(f.src.data()); break;
    case 4: f.dst = AnyMac("mac"); m.Destination(f.dst); break;
    case 5: f.type = v; m.EthType(v); break;
    case 6: f.received = v; m.ReceivedDataByteCount(v); break;
    case 7: f.length = v; m.DataLength(v); break;
    case 8: f.pad = v; m.PaddingByteCount(v); break;
    case 9: f.crc = vp_nd_u32("v32"); m.Crc(f.crc); break;
    default: f.expected = vp_nd_u32("v32"); m.ExpectedCrc(f.expected); break;
  }
  Check(m, f);
  vp_reach("changed");
  m.Reset();
  EthMessage fresh;
  Fields z{};
  z.type = fresh.EthType();
  Check(m, z);
}

VP_CONTRACT(eth_record) {
  const unsigned k = static_cast<unsigned>(vp_choose(4, "event"));
  Writer w; detail::Dg4Block dg;
  const bool mand = vp_choose(2, "mandatory") != 0, adapter = vp_choose(2, "adapter") != 0;
  const auto st = static_cast<MdfStorageType>(vp_choose(3, "storage"));
  w.BusType(MdfBusType::Ethernet);
  w.StorageType(st);
  w.MandatoryMembersOnly(adapter ? !mand : mand);
  EthConfigAdapter ad(w);
  ad.MandatoryMembersOnly(mand);
  ad.CreateConfig(dg);
  PrepareAll(dg);
  IChannelGroup* g = FindGroup(dg, kGroup[k]);
  vp_assert(g != nullptr, "group_created");
  if (g == nullptr) return;
  const bool payload = k == 0 || !mand;
  static const uint64_t kLen[5] = {0, 1, 14, 60, 1500};
  const uint64_t n = payload ? kLen[vp_choose(5, "n")] : 3;
  Fields f = Any(n);
  EthMessage m;
  Set(m, f);
  // The length member is the caller's to say: it differs from the stored bytes when a frame was cut.
  if (vp_nd_bool("says_length")) { f.length = vp_nd_u16("length"); m.DataLength(f.length); }
  m.DataGroup(&dg);
  DirtySampleBuffer(*g);
  Queue q(w, dg);
  q.SaveEthMessage(*g, vp_nd_u64("time"), m);
  vp_assert(q.All().size() == 1, "exactly_one_sample_recorded");
  const SampleRecord& r = q.All().front();
  vp_assert(r.record_id == g->RecordId(), "sample_carries_record_id");
  CheckRecordSize(*g, r.record_buffer);
  CheckChannelsInside(*g, r.record_buffer.size());
  Bus b{*g, r.record_buffer, kGroup[k]};
  auto mac = [&](const char* member, const Mac& want, const char* label) {
    IChannel* cn = Find(*g, (b.base + "." + member).c_str());
    vp_assert(cn != nullptr, "mandatory_member_is_declared");
    if (cn == nullptr) return;
    std::vector<uint8_t> out;
    const bool ok = cn->GetChannelValue(r.record_buffer, out);
    vp_assert(ok && SameBytes(out, std::vector<uint8_t>(want.begin(), want.end())), label);
  };
  b.Member("BusChannel", f.bus, true, "bus_channel");
  mac("Source", f.src, "source"); mac("Destination", f.dst, "destination");
  b.Member("EtherType", f.type, true, "ether_type");
  if (k != 1 || !mand) b.Member("ReceivedDataByteCount", f.received, true, "received_count");
  if (k < 2 || !mand) b.Member("DataLength", f.length, true, "data_length");
  if (k == 1) {
    b.Member("ReceivedCRC", f.crc, true, "received_crc");
    b.Member("ExpectedCRC", f.expected, true, "expected_crc");
  }
  if (!mand) {
    if (k != 1) b.Member("CRC", f.crc, true, "crc");
    b.Member("Dir", f.dir, true, "dir");
    b.Member("PadByteCount", f.pad, true, "pad_count");
    if (k == 3) b.Member("ErrorType", static_cast<uint64_t>(f.error), true, "error_type");
  }
  if (payload) { CheckPayload(*g, b.base + ".DataBytes", r, MdfStorageType::VlsdStorage, f.data, 0); CheckVlsdLink(dg, *g, b.base + ".DataBytes", st != MdfStorageType::FixedLengthStorage); }
  else vp_assert(!r.vlsd_data, "no_payload_channel_no_detached_data");
  vp_reach("recorded");
}
