// LIN messages: independent fields, and every event is stored as the channels
// of its group describe it (linmessage.cpp, linconfigadapter.cpp).
#include "busutil.h"
#include "mdf/linconfigadapter.h"
using namespace mdf;
using namespace vpbus;
namespace {
struct Fields {
  uint8_t bus, id, received, length, expected, crc; bool dir; int model; uint64_t sof; float baud, response;
  uint32_t brk, delim, total; int dom; std::vector<uint8_t> data;
};
float AnyFloat(const char* n) { float f = vp_nd_float(n); vp_assume(f == f); return f; }
Fields Any(uint64_t n) {
  Fields f;
  f.bus = vp_nd_u8("bus"); f.id = vp_nd_u8("id") & 0x3F; f.dir = vp_nd_bool("dir");
  f.received = vp_nd_u8("received") & 15; f.expected = vp_nd_u8("expected") & 15; f.crc = vp_nd_u8("crc");
  f.model = n == 8 || n == 1 ? static_cast<int>(vp_choose(3, "model")) - 1 : 1; f.sof = vp_nd_u64("sof");
  f.baud = AnyFloat("baud"); f.response = AnyFloat("response");
  f.brk = vp_nd_u32("brk"); f.delim = vp_nd_u32("delim"); f.total = vp_nd_u32("total");
  f.dom = static_cast<int>(vp_nd_u8("dom") & 3); vp_assume(f.dom < 3);
  f.data = vp_vec(n, "data"); f.length = static_cast<uint8_t>(n);
  return f;
}
void Set(LinMessage& m, const Fields& f) {
  m.BusChannel(f.bus); m.LinId(f.id); m.Dir(f.dir); m.ReceivedDataByteCount(f.received); m.ExpectedDataByteCount(f.expected);
  m.Checksum(f.crc); m.ChecksumModel(static_cast<LinChecksumModel>(f.model)); m.StartOfFrame(f.sof); m.Baudrate(f.baud);
  m.ResponseBaudrate(f.response); m.BreakLength(f.brk); m.DelimiterBreakLength(f.delim); m.TotalSignalLength(f.total);
  m.TypeOfLongDominantSignal(static_cast<LinTypeOfLongDominantSignal>(f.dom)); m.DataBytes(f.data);
}
void Check(const LinMessage& m, const Fields& f) {
  vp_assert(m.BusChannel() == f.bus && m.LinId() == f.id && m.Dir() == f.dir, "fields_kept");
  vp_assert(m.ReceivedDataByteCount() == f.received && m.DataLength() == f.length && m.ExpectedDataByteCount() == f.expected, "counts_kept");
  vp_assert(m.Checksum() == f.crc && static_cast<int>(m.ChecksumModel()) == f.model && m.StartOfFrame() == f.sof, "checksum_and_start_kept");
  vp_assert(vp_fbits(m.Baudrate()) == vp_fbits(f.baud) && vp_fbits(m.ResponseBaudrate()) == vp_fbits(f.response), "baud_rates_kept");
  vp_assert(m.BreakLength() == f.brk && m.DelimiterBreakLength() == f.delim && m.TotalSignalLength() == f.total &&
            static_cast<int>(m.TypeOfLongDominantSignal()) == f.dom, "lengths_kept");
  vp_assert(SameBytes(m.DataBytes(), f.data), "data_kept");
}
const char* const kGroup[8] = {"LIN_Frame", "LIN_WakeUp", "LIN_ChecksumError", "LIN_TransmissionError", "LIN_SyncError", "LIN_ReceiveError", "LIN_Spike", "LIN_LongDom"};
}  // namespace

VP_CONTRACT(lin_fields) {
  Fields f = Any(2);
  LinMessage m;
  Set(m, f);
  Check(m, f);
  vp_reach("set");
  const uint8_t v = vp_nd_u8("v8");
  switch (vp_choose(15, "which")) {
    case 0: m.BusChannel(v); f.bus = v; break;
    case 1: m.LinId(v); f.id = v & 0x3F; break;
    case 2: f.dir = v & 1; m.Dir(f.dir); break;
    case 3: m.ReceivedDataByteCount(v); f.received = v & 15; break;
    case 4: m.DataLength(v); f.length = v & 15; break;
    case 5: m.ExpectedDataByteCount(v); f.expected = v & 15; break;
    case 6: m.Checksum(v); f.crc = v; break;
    case 7: f.model = static_cast<int>(v % 3) - 1; m.ChecksumModel(static_cast<LinChecksumModel>(f.model)); break;
    case 8: f.sof = vp_nd_u64("v64"); m.StartOfFrame(f.sof); break;
    case 9: f.baud = AnyFloat("vf"); m.Baudrate(f.baud); break;
    case 10: f.response = AnyFloat("vf"); m.ResponseBaudrate(f.response); break;
    case 11: f.brk = vp_nd_u32("v32"); m.BreakLength(f.brk); break;
    case 12: f.delim = vp_nd_u32("v32"); m.DelimiterBreakLength(f.delim); break;
    case 13: f.total = vp_nd_u32("v32"); m.TotalSignalLength(f.total); break;
    default: f.dom = v % 3; m.TypeOfLongDominantSignal(static_cast<LinTypeOfLongDominantSignal>(f.dom)); break;
  }
  Check(m, f);
  vp_reach("changed");
  m.Reset();
  LinMessage fresh;
  vp_assert(m.LinId() == 0 && !m.Dir() && m.BusChannel() == 0 && m.DataLength() == 0 && m.ReceivedDataByteCount() == 0 && m.DataBytes().empty() &&
            m.Checksum() == 0 && m.StartOfFrame() == 0 && m.ExpectedDataByteCount() == 0 && m.ChecksumModel() == fresh.ChecksumModel() &&
            m.BreakLength() == 0 && m.DelimiterBreakLength() == 0 && m.TotalSignalLength() == 0 && m.Baudrate() == 0 && m.ResponseBaudrate() == 0, "reset_clears");
}

VP_CONTRACT(lin_record) {
  const unsigned k = static_cast<unsigned>(vp_choose(8, "event"));
  Writer w; detail::Dg4Block dg;
  // Member selection made for the writer or for the adapter alone.
  const bool mand = vp_choose(2, "mandatory") != 0, adapter = vp_choose(2, "adapter") != 0;
  w.BusType(MdfBusType::LIN);
  w.StorageType(static_cast<MdfStorageType>(vp_choose(3, "storage")));
  w.MandatoryMembersOnly(adapter ? !mand : mand);
  LinConfigAdapter ad(w);
  ad.MandatoryMembersOnly(mand);
  ad.CreateConfig(dg);
  PrepareAll(dg);
  IChannelGroup* g = FindGroup(dg, kGroup[k]);
  vp_assert(g != nullptr, "group_created");
  if (g == nullptr) return;
  const bool payload = k == 0 || k == 5 || (k == 2 && !mand);
  const uint64_t n = payload ? vp_choose(9, "n") : 1;
  Fields f = Any(n);
  LinMessage m;
  Set(m, f);
  // The length member is the caller's to say: it differs from the stored bytes when a frame was cut.
  const bool cut = n == 8 && vp_choose(2, "cut") != 0;
  if (cut) { f.length = vp_nd_u8("length") & 15; m.DataLength(f.length); }
  m.DataGroup(&dg);
  DirtySampleBuffer(*g);
  Queue q(w, dg);
  q.SaveLinMessage(*g, vp_nd_u64("time"), m);
  vp_assert(q.All().size() == 1, "exactly_one_sample_recorded");
  const SampleRecord& r = q.All().front();
  vp_assert(r.record_id == g->RecordId(), "sample_carries_record_id");
  CheckRecordSize(*g, r.record_buffer);
  CheckChannelsInside(*g, r.record_buffer.size());
  Bus b{*g, r.record_buffer, kGroup[k]};
  auto flt = [&](const char* member, float v, const char* label) { FloatMember(*g, r.record_buffer, b.base + "." + member, v, true, label); };
  b.Member("BusChannel", f.bus, true, "bus_channel");
  const bool id = k == 0 || k == 2 || k == 3 || k == 5;
  if (id) b.Member("ID", f.id, true, "id");
  b.Member("Dir", f.dir, k == 0, "dir");
  if (k == 0 || k == 5 || (k == 2 && !mand)) b.Member("ReceivedDataByteCount", f.received, true, "received_count");
  if (k == 5 || (k == 3 && !mand)) b.Member("SpecifiedDataByteCount", f.expected, true, "expected_count");
  if (payload) {
    b.Member("DataLength", f.length, true, "data_length");
    if (!cut) CheckPayload(*g, b.base + ".DataBytes", r, MdfStorageType::MlsdStorage, f.data, 8);
  }
  if (mand && (k == 0 || k == 2 || k == 3)) return;
  if (k == 0 || k == 2) b.Member("Checksum", f.crc, true, "checksum");
  if (id) SignedMember(*g, r.record_buffer, b.base + ".ChecksumModel", f.model, true, "checksum_model");
  b.Member("SOF", f.sof, true, "start_of_frame");
  if (n > 1 && n < 8) return;   // members independent of the payload: boundary lengths
  flt("Baudrate", f.baud, "baudrate");
  if (k == 0 || k == 2 || k == 5) flt("ResponseBaudrate", f.response, "response_baudrate");
  if (k != 1 && k != 6 && k != 7) {
    b.Member("BreakLength", f.brk, true, "break_length");
    b.Member("BreakDelimiterLength", f.delim, true, "delimiter_length");
  }
  if (k == 7) {
    b.Member("Length", f.total, true, "signal_length");
    b.Member("Type", static_cast<uint64_t>(f.dom), true, "dominant_type");
  }
  vp_reach("recorded");
}
