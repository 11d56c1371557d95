// Shared by the bus-logging contracts: a writer object that carries the
// configuration, a data group, and the recorded sample.
#pragma once
#include "vp.h"
#include <deque>
#include <map>
#include "mdf/mdfwriter.h"
#include "mdf/canmessage.h"
#include "mdf/linmessage.h"
#include "mdf/ethmessage.h"
#include "mdf/mostmessage.h"
#include "mdf/flexraymessage.h"
#include "mdf/ichannel.h"
#include "mdf/ichannelgroup.h"
#include "mdf/idatagroup.h"
#include "dg4block.h"
#include "cg4block.h"
#include "cn4block.h"
#include "samplequeue.h"

namespace vpbus {
// Concrete MdfWriter: only configuration (StorageType, MaxLength, ...) is used.
class Writer : public mdf::MdfWriter {
 public:
  mdf::IChannelConversion* CreateChannelConversion(mdf::IChannel*) override { return nullptr; }
  void AddSample(const mdf::IDataGroup&, const mdf::IChannelGroup&, uint64_t, mdf::SampleRecord&&) override {}
  void SaveSample(const mdf::IChannelGroup&, uint64_t) override {}
  void SaveSample(const mdf::IDataGroup&, const mdf::IChannelGroup&, uint64_t) override {}
  void SaveCanMessage(const mdf::IChannelGroup&, uint64_t, const mdf::CanMessage&) override {}
  void SaveCanMessage(const mdf::IDataGroup&, const mdf::IChannelGroup&, uint64_t, const mdf::CanMessage&) override {}
  void SaveLinMessage(const mdf::IChannelGroup&, uint64_t, const mdf::LinMessage&) override {}
  void SaveLinMessage(const mdf::IDataGroup&, const mdf::IChannelGroup&, uint64_t, const mdf::LinMessage&) override {}
  void SaveEthMessage(const mdf::IChannelGroup&, uint64_t, const mdf::EthMessage&) override {}
  void SaveEthMessage(const mdf::IDataGroup&, const mdf::IChannelGroup&, uint64_t, const mdf::EthMessage&) override {}
  void SaveMostMessage(const mdf::IDataGroup&, const mdf::IChannelGroup&, uint64_t, const mdf::IMostEvent&) override {}
  void SaveFlexRayMessage(const mdf::IDataGroup&, const mdf::IChannelGroup&, uint64_t, const mdf::IFlexRayEvent&) override {}
  void CreateMdfFile() override {}
  bool PrepareForWriting() override { return true; }
  void InitWriteCache() override {}
  void ExitWriteCache() override {}
  void RecalculateTimeMaster() override {}
  void NotifySample() override {}
};
// Gives the contracts access to the recorded sample.
class Queue : public mdf::detail::SampleQueue {
 public:
  using SampleQueue::SampleQueue;
  const std::deque<mdf::SampleRecord>& All() const { return Queue::SampleQueue::Queue(); }
  size_t Bytes() const { return QueueSize(); }
  void Push(const mdf::SampleRecord& r) { PushSample(r); }
  void Pop() { PopSample(); }
  mdf::SampleRecord Get() { return GetSample(); }
  void Add(mdf::SampleRecord&& r) { AddSample(std::move(r)); }
  bool Empty() const { return IsEmpty(); }
};
// Channels() lists compositions too. Finds a (composition) channel by its full name, or null.
inline mdf::IChannel* Find(mdf::IChannelGroup& g, const char* name) {
  for (auto* c : g.Channels()) {
    if (c->Name() == name) return c;
  }
  return nullptr;
}
inline mdf::IChannelGroup* FindGroup(mdf::IDataGroup& dg, const char* name) {
  for (auto* g : dg.ChannelGroups()) if (g->Name() == name) return g;
  return nullptr;
}
}  // namespace vpbus

namespace vpbus {
// ---- generic obligations on one recorded bus event ------------------------
// The recorded sample has exactly the size that the group declares on disc.
inline void CheckRecordSize(mdf::IChannelGroup& g, const std::vector<uint8_t>& rec) {
  vp_assert(rec.size() == static_cast<mdf::detail::Cg4Block&>(g).NofDataBytes() + static_cast<mdf::detail::Cg4Block&>(g).NofInvalidBytes(),
            "record_has_the_declared_size");
}
// Every declared channel lies inside the record.
inline void CheckChannelsInside(mdf::IChannelGroup& g, size_t size) {
  for (auto* c : g.Channels()) {
    vp_assert(static_cast<uint64_t>(c->ByteOffset()) * 8 + c->BitOffset() + c->BitCount() <= size * 8, "declared_channel_inside_record");
  }
}
struct Bus {
  mdf::IChannelGroup& g;
  const std::vector<uint8_t>& rec;
  std::string base;
  // Channel <base>.<member>: if declared, it reads back `want`.
  void Member(const char* member, uint64_t want, bool must, const char* label) {
    const std::string name = base + "." + member;
    mdf::IChannel* cn = Find(g, name.c_str());
    if (cn == nullptr) { vp_assert(!must, "mandatory_member_is_declared"); return; }
    uint64_t v = ~want;
    const bool ok = cn->GetChannelValue(rec, v);
    vp_assert(ok, "member_value_is_valid");
    vp_assert(v == want, label);
    vp_reach(label);
  }
};
// A 32-bit float member stored as FloatLe.
inline void FloatMember(mdf::IChannelGroup& g, const std::vector<uint8_t>& rec, const std::string& name, float want, bool must, const char* label) {
  mdf::IChannel* cn = Find(g, name.c_str());
  if (cn == nullptr) { vp_assert(!must, "mandatory_member_is_declared"); return; }
  double v = 0;
  const bool ok = cn->GetChannelValue(rec, v);
  vp_assert(ok, "member_value_is_valid");
  vp_assert(vp_dbits(v) == vp_dbits(static_cast<double>(want)), label);
  vp_reach(label);
}
inline void SignedMember(mdf::IChannelGroup& g, const std::vector<uint8_t>& rec, const std::string& name, int64_t want, bool must, const char* label) {
  mdf::IChannel* cn = Find(g, name.c_str());
  if (cn == nullptr) { vp_assert(!must, "mandatory_member_is_declared"); return; }
  int64_t v = ~want;
  const bool ok = cn->GetChannelValue(rec, v);
  vp_assert(ok, "member_value_is_valid");
  vp_assert(v == want, label);
  vp_reach(label);
}
inline bool SameBytes(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); ++i) ok = ok & (a[i] == b[i]);
  return ok;
}
// Payload bytes: in the record (MLSD, padded) or attached as VLSD data.
inline void CheckPayload(mdf::IChannelGroup& g, const std::string& name, const mdf::SampleRecord& s,
                         mdf::MdfStorageType st, const std::vector<uint8_t>& data, uint64_t maxlen) {
  mdf::IChannel* cn = Find(g, name.c_str());
  vp_assert(cn != nullptr, "payload_channel_declared");
  if (cn == nullptr) return;
  if (st == mdf::MdfStorageType::MlsdStorage) {
    vp_assert(!s.vlsd_data, "mlsd_has_no_detached_data");
    std::vector<uint8_t> out;
    const bool ok = cn->GetChannelValue(s.record_buffer, out);
    vp_assert(ok && out.size() >= data.size() && out.size() == maxlen, "mlsd_payload_readable");
    bool same = true;
    for (size_t i = 0; i < data.size() && i < out.size(); ++i) same = same & (out[i] == data[i]);
    vp_assert(same, "mlsd_payload_equal");
    vp_reach("mlsd");
  } else {
    vp_assert(s.vlsd_data, "payload_detached");
    vp_assert(SameBytes(s.vlsd_buffer, data), "detached_payload_equal");
    vp_reach("vlsd");
  }
}
// Detached payload goes to a variable length group of its own: the link leads
// to a group flagged so, and no other channel shares it.
inline void CheckVlsdLink(mdf::IDataGroup& dg, mdf::IChannelGroup& g, const std::string& name, bool linked) {
  mdf::IChannel* cn = Find(g, name.c_str());
  if (cn == nullptr) return;
  const uint64_t id = cn->VlsdRecordId();
  if (!linked) { vp_assert(id == 0, "signal_data_payload_has_no_group"); return; }
  unsigned groups = 0, users = 0;
  for (auto* x : dg.ChannelGroups()) {
    if (x->RecordId() == id) groups += (x->Flags() & mdf::CgFlag::VlsdChannel) != 0 ? 1 : 2;
    for (auto* c : x->Channels()) if (c->VlsdRecordId() == id) ++users;
  }
  vp_assert(id != 0 && groups == 1, "payload_linked_to_one_variable_length_group");
  vp_assert(users == 1, "variable_length_group_not_shared");
}
inline void PrepareAll(mdf::IDataGroup& dg) {
  for (auto* g : dg.ChannelGroups()) static_cast<mdf::detail::Cg4Block*>(g)->PrepareForWriting();
}
// Earlier use of the group may have left any bytes in its sample buffer.
inline void DirtySampleBuffer(mdf::IChannelGroup& g) {
  auto& b = static_cast<mdf::detail::Cg4Block&>(g).sample_buffer_;
  if (!b.empty()) vp_nd_bytes(b.data(), b.size(), "stale");
}
}  // namespace vpbus
