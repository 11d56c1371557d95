// End-to-end contract of CAN bus logging: for every message, storage type,
// member selection and frame type, each channel that the bus configuration
// declares reads back exactly the field of the saved message (can_record), and
// the bus observer rebuilds the message (can_observer).
#include "busutil.h"
#include "mdf/canconfigadapter.h"
#include "mdf/canbusobserver.h"
using namespace mdf;
using namespace vpbus;
namespace {
const char* const kGroup[4] = {"CAN_DataFrame", "CAN_RemoteFrame", "CAN_ErrorFrame", "CAN_OverloadFrame"};
struct Fields {
  uint32_t id; bool ext; uint8_t bus, dlc, err; bool dir, srr, edl, brs, esi, rtr, wake, single, r0, r1;
  uint32_t dur, crc; uint16_t bp; std::vector<uint8_t> data;
};
void Fill(CanMessage& m, Fields& f, uint64_t n) {
  f.id = vp_nd_u32("id") & 0x1FFFFFFFu; f.ext = vp_nd_bool("ext") || f.id > 0x7FF;
  m.MessageId(f.id); m.ExtendedId(f.ext);
  f.bus = vp_nd_u8("bus"); m.BusChannel(f.bus);
  f.data = vp_vec(n, "data"); m.DataBytes(f.data);
  f.dir = vp_nd_bool("dir"); m.Dir(f.dir);
  f.srr = vp_nd_bool("srr"); m.Srr(f.srr);
  f.edl = vp_nd_bool("edl"); m.Edl(f.edl);
  f.brs = vp_nd_bool("brs"); m.Brs(f.brs);
  f.esi = vp_nd_bool("esi"); m.Esi(f.esi);
  f.wake = vp_nd_bool("wake"); m.WakeUp(f.wake);
  f.single = vp_nd_bool("single"); m.SingleWire(f.single);
  f.r0 = vp_nd_bool("r0"); m.R0(f.r0);
  f.r1 = vp_nd_bool("r1"); m.R1(f.r1);
  f.dur = vp_nd_u32("dur"); m.FrameDuration(f.dur);
  f.crc = vp_nd_u32("crc"); m.Crc(f.crc);
  f.bp = vp_nd_u16("bp"); m.BitPosition(f.bp);
  f.err = vp_nd_u8("err") & 7; m.ErrorType(static_cast<CanErrorType>(f.err));
  f.dlc = m.Dlc();
  // The length code is the caller's to say: classic CAN allows codes above 8 for 8 bytes.
  if (n % 8 == 0 && vp_nd_bool("says_dlc")) { f.dlc = vp_nd_u8("dlc") & 15; m.Dlc(f.dlc); }
}
struct Setup {
  Writer w; detail::Dg4Block dg; MdfStorageType st; bool mand, adapter; uint32_t maxlen; unsigned kind;
  IChannelGroup* g = nullptr;
  Setup() {
    kind = static_cast<unsigned>(vp_choose(4, "frame"));
    st = static_cast<MdfStorageType>(vp_choose(3, "storage"));
    mand = vp_choose(2, "mandatory") != 0;
    maxlen = vp_choose(2, "maxlen") ? 64 : 8;
    // Maximum length and member selection made for the writer or for the adapter.
    adapter = vp_choose(2, "adapter") != 0;
    w.StorageType(st); w.MandatoryMembersOnly(adapter ? !mand : mand); w.MaxLength(adapter ? 72 - maxlen : maxlen); w.BusType(MdfBusType::CAN);
    CanConfigAdapter ad(w);
    if (adapter) { ad.MaxLength(maxlen); ad.MandatoryMembersOnly(mand); }
    ad.CreateConfig(dg);
    PrepareAll(dg);
    g = FindGroup(dg, kGroup[kind]);
    if (g == nullptr) { vp_assert(kind == 3 && mand, "frame_group_created"); vp_path_end(); }
  }
  uint64_t PayloadLength() {
    if (kind == 3) return 0;
    if (kind == 1) return 8 * vp_choose(2, "n");  // no payload channel, but a length the frame asks for
    const uint64_t top = st == MdfStorageType::MlsdStorage ? maxlen + 1 : 65;
    return adapter ? top - 1 - vp_choose(2, "n") : vp_choose(top, "n");
  }
};
}  // namespace

VP_CONTRACT(can_record) {
  Setup s;
  CanMessage m; Fields f;
  const uint64_t n = s.PayloadLength();
  // Members that cannot depend on the payload length are checked for the
  // boundary lengths only.
  const bool all = n == 0 || n == 8 || n == 64;
  Fill(m, f, n);
  m.DataGroup(&s.dg);
  DirtySampleBuffer(*s.g);
  Queue q(s.w, s.dg);
  const uint64_t t = vp_nd_u64("time");
  q.SaveCanMessage(*s.g, t, m);
  vp_assert(q.All().size() == 1, "exactly_one_sample_recorded");
  const SampleRecord& r = q.All().front();
  vp_assert(r.record_id == s.g->RecordId(), "sample_carries_record_id");
  CheckRecordSize(*s.g, r.record_buffer);
  CheckChannelsInside(*s.g, r.record_buffer.size());
  Bus b{*s.g, r.record_buffer, kGroup[s.kind]};
  b.Member("BusChannel", f.bus, true, "bus_channel");
  const bool opt = !s.mand || s.kind == 2;
  b.Member("Dir", f.dir, opt, "dir");
  if (s.kind == 3) return;
  b.Member("ID", f.id, true, "id");
  b.Member("IDE", f.ext, true, "ide");
  b.Member("DLC", f.dlc, true, "dlc");
  b.Member("DataLength", f.data.size(), true, "data_length");
  if (s.kind != 1) {
    CheckPayload(*s.g, b.base + ".DataBytes", r, s.st, f.data, s.maxlen);
    CheckVlsdLink(s.dg, *s.g, b.base + ".DataBytes", s.st == MdfStorageType::VlsdStorage);
  }
  if (!all) return;
  b.Member("SRR", f.srr, opt, "srr");
  b.Member("WakeUp", f.wake, opt, "wake_up");
  b.Member("SingleWire", f.single, opt, "single_wire");
  b.Member("R0", f.r0, opt, "r0");
  b.Member("R1", f.r1, opt, "r1");
  b.Member("FrameDuration", f.dur, opt, "frame_duration");
  b.Member("CRC", f.crc, opt, "crc");
  if (s.kind == 1) return;
  b.Member("EDL", f.edl, opt, "edl");
  b.Member("BRS", f.brs, opt, "brs");
  b.Member("ESI", f.esi, opt, "esi");
  if (s.kind == 2) {
    b.Member("ErrorType", f.err, true, "error_type");
    b.Member("BitPosition", f.bp, true, "bit_position");
  }
}

VP_CONTRACT(can_observer) {
  Setup s;
  const unsigned k = s.kind;
  CanMessage m; Fields f;
  const uint64_t n = s.PayloadLength();
  const bool all = n == 0 || n == 8 || n == 64;  // members independent of the length: boundary lengths
  Fill(m, f, n);
  m.DataGroup(&s.dg);
  Queue q(s.w, s.dg);
  q.SaveCanMessage(*s.g, vp_nd_u64("time"), m);
  const SampleRecord r = q.All().front();
  s.g->NofSamples(1);
  // The reader derives the storage type of a group from its channels: a group
  // without a payload channel is read as fixed length (hd4block.cpp).
  if (s.kind == 1 || s.kind == 3) s.g->StorageType(MdfStorageType::FixedLengthStorage);
  // What the reader does before the samples are delivered: SD data is loaded
  // into the channel, VLSD CG data is delivered as a second record.
  const bool payload = (k == 0 || k == 2);
  IChannel* dc = payload ? Find(*s.g, (std::string(kGroup[k]) + ".DataBytes").c_str()) : nullptr;
  if (payload && s.st == MdfStorageType::FixedLengthStorage) {
    auto* cn = static_cast<detail::Cn4Block*>(dc);
    const uint32_t n = static_cast<uint32_t>(r.vlsd_buffer.size());
    cn->data_list_.clear();
    for (int i = 0; i < 4; ++i) cn->data_list_.push_back(static_cast<uint8_t>(n >> (8 * i)));
    for (uint8_t x : r.vlsd_buffer) cn->data_list_.push_back(x);
  }
  if (payload && s.st == MdfStorageType::MlsdStorage)
    static_cast<detail::Cn4Block*>(dc)->MlsdChannel(static_cast<detail::Cn4Block*>(
        Find(*s.g, (std::string(kGroup[k]) + ".DataLength").c_str())));
  CanBusObserver ob(s.dg, *s.g);
  const bool callback = vp_choose(2, "callback") != 0;
  int calls = 0; CanMessage got;
  if (callback) ob.OnCanMessage = [&](uint64_t sample, const CanMessage& x) { ++calls; got = x; return sample == 0; };
  bool ok = ob.OnSample(0, s.g->RecordId(), r.record_buffer);
  vp_assert(ok, "observer_accepts_sample");
  if (payload && s.st == MdfStorageType::VlsdStorage) {
    vp_assert(dc->VlsdRecordId() != 0, "payload_channel_names_its_data_group");
    ok = ob.OnSample(0, dc->VlsdRecordId(), r.vlsd_buffer);
    vp_assert(ok, "observer_accepts_payload");
  }
  if (callback) {
    vp_assert(calls == 1, "callback_once_per_message");
  } else {
    const CanMessage* p = ob.GetCanMessage(0);
    vp_assert(p != nullptr, "message_available");
    if (p == nullptr) return;
    got = *p;
  }
  vp_assert(got.TypeOfMessage() == static_cast<MessageType>(k), "message_type");
  vp_reach("observed");
  vp_assert(got.BusChannel() == f.bus, "observed_bus_channel");
  const bool opt = !s.mand || k == 2;
  if (opt) vp_assert(got.Dir() == f.dir, "observed_dir");
  if (k == 3) return;
  vp_assert(got.CanId() == f.id, "observed_id");
  vp_assert(got.ExtendedId() == f.ext, "observed_extended");
  vp_assert(got.Dlc() == f.dlc, "observed_dlc");
  if (payload) vp_assert(SameBytes(got.DataBytes(), f.data), "observed_payload");
  if (!all) return;
  if (opt) {
    vp_assert(got.Srr() == f.srr && got.WakeUp() == f.wake && got.SingleWire() == f.single, "observed_flags");
    vp_assert(got.R0() == f.r0, "observed_r0");
    vp_assert(got.R1() == f.r1, "observed_r1");
    vp_assert(got.FrameDuration() == f.dur, "observed_duration");
    vp_assert(got.Crc() == f.crc, "observed_crc");
    if (payload) vp_assert(got.Edl() == f.edl && got.Brs() == f.brs && got.Esi() == f.esi, "observed_fd_flags");
  }
  if (k == 2) {
    vp_assert(got.BitPosition() == f.bp, "observed_bit_position");
    vp_assert(static_cast<uint8_t>(got.ErrorType()) == f.err, "observed_error_type");
  }
}

// Two consecutive data frames through one observer: nothing of one message
// leaks into the other and the order of record and detached payload is free.
VP_CONTRACT(can_observer_sequence) {
  Setup s;
  if (s.kind != 0) vp_path_end();
  const auto st = s.st;
  CanMessage m[2]; Fields f[2]; SampleRecord r[2];
  Queue q(s.w, s.dg);
  IChannel* dc = Find(*s.g, "CAN_DataFrame.DataBytes");
  auto* cn = static_cast<detail::Cn4Block*>(dc);
  static const uint64_t kLen[3] = {0, 2, 8};
  const uint64_t n0 = kLen[vp_choose(3, "n0")], n1 = kLen[vp_choose(3, "n1")];
  Fill(m[0], f[0], n0);
  Fill(m[1], f[1], n1);
  for (int i = 0; i < 2; ++i) {
    m[i].DataGroup(&s.dg);
    q.SaveCanMessage(*s.g, 1000 + i, m[i]);
  }
  vp_assert(q.All().size() == 2, "one_sample_per_message");
  r[0] = q.Get(); r[1] = q.Get();
  s.g->NofSamples(2);
  if (st == MdfStorageType::FixedLengthStorage) {
    // Payload in a signal data block: the index member holds its offset.
    cn->data_list_.clear();
    for (int k = 0; k < 2; ++k) {
      const uint64_t index = cn->data_list_.size();
      for (int i = 0; i < 8; ++i) r[k].record_buffer[dc->ByteOffset() + i] = static_cast<uint8_t>(index >> (8 * i));
      const uint32_t n = static_cast<uint32_t>(r[k].vlsd_buffer.size());
      for (int i = 0; i < 4; ++i) cn->data_list_.push_back(static_cast<uint8_t>(n >> (8 * i)));
      for (uint8_t x : r[k].vlsd_buffer) cn->data_list_.push_back(x);
    }
  } else if (st == MdfStorageType::MlsdStorage) {
    cn->MlsdChannel(static_cast<detail::Cn4Block*>(Find(*s.g, "CAN_DataFrame.DataLength")));
  }
  CanBusObserver ob(s.dg, *s.g);
  const bool callback = vp_choose(2, "callback") != 0;
  std::vector<CanMessage> got; std::vector<uint64_t> idx;
  if (callback) ob.OnCanMessage = [&](uint64_t sample, const CanMessage& x) { got.push_back(x); idx.push_back(sample); return true; };
  const bool data_first = st == MdfStorageType::VlsdStorage && vp_choose(2, "data_first") != 0;
  for (uint64_t i = 0; i < 2; ++i) {
    bool ok = true;
    if (data_first) ok = ob.OnSample(i, dc->VlsdRecordId(), r[i].vlsd_buffer);
    ok = ob.OnSample(i, s.g->RecordId(), r[i].record_buffer) && ok;
    if (st == MdfStorageType::VlsdStorage && !data_first) ok = ob.OnSample(i, dc->VlsdRecordId(), r[i].vlsd_buffer) && ok;
    // Records of other groups are none of its business.
    ok = ob.OnSample(i, 12345, r[i].record_buffer) && ok;
    vp_assert(ok, "observer_accepts_samples");
  }
  if (callback) {
    vp_assert(got.size() == 2 && idx[0] == 0 && idx[1] == 1, "callback_once_per_message_in_order");
  } else {
    for (uint64_t i = 0; i < 2; ++i) {
      const CanMessage* p = ob.GetCanMessage(i);
      vp_assert(p != nullptr, "message_available");
      if (p == nullptr) return;
      got.push_back(*p);
    }
    vp_assert(ob.GetCanMessage(2) == nullptr, "no_message_beyond_the_last");
  }
  for (uint64_t i = 0; i < 2; ++i) {
    vp_assert(got[i].CanId() == f[i].id && got[i].ExtendedId() == f[i].ext && got[i].BusChannel() == f[i].bus &&
              got[i].Dlc() == f[i].dlc, "sequence_members");
    vp_assert(SameBytes(got[i].DataBytes(), f[i].data), "sequence_payload");
    if (!s.mand) vp_assert(got[i].Dir() == f[i].dir && got[i].Edl() == f[i].edl && got[i].Crc() == f[i].crc, "sequence_optional_members");
  }
  vp_reach("sequence");
}
