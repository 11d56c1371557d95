// Contracts of a whole bus log: the messages handed to the writer are those
// that a reader of the finished file gets, for every storage type.
#include "e2e.h"
#include "mdf/canbusobserver.h"
#include "mdf/canmessage.h"
#include "mdf/linmessage.h"
#include "mdf/ethmessage.h"
#include "mdf/mostmessage.h"
#include "mdf/flexraymessage.h"
#include "mdf/flexrayconfigadapter.h"
namespace {
bool Same(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); ++i) ok = ok & (a[i] == b[i]);
  return ok;
}
IChannelGroup* Group(IDataGroup& dg, const std::string& name) {
  for (auto* g : dg.ChannelGroups()) if (g->Name() == name) return g;
  vp_assert(false, "the group is in the file");
  return nullptr;
}
bool HasChannel(const IChannelGroup& group, const std::string& name) {
  for (const auto* cn : group.Channels()) if (cn->Name() == name) return true;
  return false;
}
struct BusLog : Measurement {
  MdfStorageType storage;
  IDataGroup* dg = nullptr;
  BusLog(uint16_t bus, bool mandatory) : Measurement(vp_choose(2, "writer") == 1 ? MdfWriterType::MdfConverter : MdfWriterType::MdfBusLogger) {
    storage = static_cast<MdfStorageType>(vp_choose(3, "storage"));
    writer->CompressData(vp_choose(2, "compress") == 1);
    writer->BusType(bus);
    writer->MandatoryMembersOnly(mandatory);
    writer->StorageType(storage);
    writer->MaxLength(8);
    if (bus == MdfBusType::FlexRay) {
      dg = writer->CreateDataGroup();
      FlexRayConfigAdapter adapter(*writer);
      adapter.CreateConfig(*dg);
    } else {
      vp_assert(writer->CreateBusLogConfiguration(), "the configuration can be created");
      dg = writer->Header()->LastDataGroup();
    }
    Start();
  }
};
const char* const kCan[4] = {"CAN_DataFrame", "CAN_RemoteFrame", "CAN_ErrorFrame", "CAN_OverloadFrame"};
}  // namespace

// Data, remote, error and overload frames in any order.
VP_CONTRACT(e2e_can) {
  BusLog m(MdfBusType::CAN, false);
  struct F { unsigned kind; uint32_t id, crc; uint8_t bus; bool dir; std::vector<uint8_t> data; };
  std::vector<F> all[4];
  static const size_t kLength[3] = {8, 0, 3};
  for (unsigned i = 0; i < 3; ++i) {
    F f;
    f.kind = static_cast<unsigned>(i == 0 ? 0 : vp_choose(i == 1 ? 4 : 3, i == 1 ? "second" : "third"));
    f.id = vp_nd_u32("id") & 0x7FF;
    f.crc = vp_nd_u32("crc");
    f.bus = vp_nd_u8("bus");
    f.dir = vp_nd_bool("dir");
    if (f.kind == 0 || f.kind == 2) f.data = vp_vec(kLength[i], "data");
    CanMessage msg;
    msg.MessageId(f.id);
    msg.BusChannel(f.bus);
    msg.Crc(f.crc);
    msg.Dir(f.dir);
    msg.DataBytes(f.data);
    m.writer->SaveCanMessage(*m.dg, *Group(*m.dg, kCan[f.kind]), kStart + 1'000'000'007ULL * i, msg);
    all[f.kind].push_back(f);
    if (i == 0) m.MayWake();
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  std::vector<std::unique_ptr<CanBusObserver>> obs;
  for (unsigned k = 0; k < 4; ++k) {
    auto* rg = Group(*rd, kCan[k]);
    vp_assert(rg->NofSamples() == all[k].size(), "every frame is counted");
    obs.push_back(std::make_unique<CanBusObserver>(*rd, *rg));
    obs.back()->AttachObserver();
  }
  vp_assert(reader.ReadData(*rd), "the data can be read");
  for (unsigned k = 0; k < 4; ++k) {
    for (size_t i = 0; i < all[k].size(); ++i) {
      const auto* got = obs[k]->GetCanMessage(i);
      vp_assert(got != nullptr, "every frame is delivered");
      const F& f = all[k][i];
      vp_assert(got->BusChannel() == f.bus && got->Dir() == f.dir, "bus and direction of each frame");
      if (k == 3) continue;
      vp_assert(got->CanId() == f.id && !got->ExtendedId(), "identifier of each frame");
      vp_assert(got->Crc() == f.crc, "checksum of each frame");
      if (k != 1) vp_assert(Same(got->DataBytes(), f.data), "payload of each frame");
    }
  }
  if (m.storage == MdfStorageType::VlsdStorage) vp_reach("variable length group");
  else if (m.storage == MdfStorageType::MlsdStorage) vp_reach("in the record");
  else vp_reach("signal data");
}

// Events of the other buses: two kinds of event with a payload, taken in turn.
VP_CONTRACT(e2e_events) {
  static const uint16_t kBus[4] = {MdfBusType::LIN, MdfBusType::Ethernet, MdfBusType::MOST, MdfBusType::FlexRay};
  static const char* const kKinds[2][4][2] = {
      {{"LIN_Frame", "LIN_ChecksumError"}, {"ETH_Frame", "ETH_ChecksumError"},
       {"MOST_Message", "MOST_Packet"}, {"FLX_Frame", "FLX_Pdu"}},
      {{"LIN_ReceiveError", "LIN_Frame"}, {"ETH_LengthError", "ETH_ReceiveError"},
       {"MOST_EthernetPacket", "MOST_Message"}, {"FLX_ErrorFrame", "FLX_NullFrame"}}};
  const auto bus = vp_choose(4, "bus");
  const auto pair = vp_choose(2, "pair");
  const unsigned order = static_cast<unsigned>(vp_choose(2, "order"));
  const auto& kKind = kKinds[pair];
  BusLog m(kBus[bus], pair == 0 && order == 1);
  struct F { uint8_t bus; std::vector<uint8_t> data; };
  std::vector<F> all[2];
  static const unsigned kOrder[2][3] = {{0, 1, 0}, {1, 0, 0}};
  static const size_t kLength[3] = {5, 8, 0};
  for (unsigned i = 0; i < 3; ++i) {
    const unsigned k = kOrder[order][i];
    F f;
    f.bus = vp_nd_u8("bus");
    f.data = vp_vec(kLength[i], "data");
    auto& group = *Group(*m.dg, kKind[bus][k]);
    const uint64_t at = kStart + 1'000'000'007ULL * i;
    if (bus == 0) {
      LinMessage msg;
      msg.BusChannel(f.bus); msg.DataBytes(f.data);
      m.writer->SaveLinMessage(*m.dg, group, at, msg);
    } else if (bus == 1) {
      EthMessage msg;
      msg.BusChannel(f.bus); msg.DataBytes(f.data);
      m.writer->SaveEthMessage(*m.dg, group, at, msg);
    } else if (bus == 2 && pair == 1 && k == 0) {
      MostEthernetPacket msg;
      msg.BusChannel(f.bus); msg.DataBytes(f.data);
      m.writer->SaveMostMessage(*m.dg, group, at, msg);
    } else if (bus == 2 && k == pair) {
      MostMessage msg;
      msg.BusChannel(f.bus); msg.DataBytes(f.data);
      m.writer->SaveMostMessage(*m.dg, group, at, msg);
    } else if (bus == 2) {
      MostPacket msg;
      msg.BusChannel(f.bus); msg.DataBytes(f.data);
      m.writer->SaveMostMessage(*m.dg, group, at, msg);
    } else if (pair == 1 && k == 0) {
      FlexRayErrorFrame msg;
      msg.BusChannel(f.bus); msg.DataBytes(f.data);
      m.writer->SaveFlexRayMessage(*m.dg, group, at, msg);
    } else if (pair == 1) {
      FlexRayNullFrame msg;
      msg.BusChannel(f.bus); msg.DataBytes(f.data);
      m.writer->SaveFlexRayMessage(*m.dg, group, at, msg);
    } else if (k == 0) {
      FlexRayFrame msg;
      msg.BusChannel(f.bus); msg.DataBytes(f.data);
      m.writer->SaveFlexRayMessage(*m.dg, group, at, msg);
    } else {
      FlexRayPdu msg;
      msg.BusChannel(f.bus); msg.DataBytes(f.data);
      m.writer->SaveFlexRayMessage(*m.dg, group, at, msg);
    }
    all[k].push_back(f);
    if (i == 1) m.MayWake();
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  ChannelObserverPtr obus[2], odata[2];
  for (unsigned k = 0; k < 2; ++k) {
    auto* rg = Group(*rd, kKind[bus][k]);
    vp_assert(rg->NofSamples() == all[k].size(), "every event is counted");
    const std::string base = kKind[bus][k];
    for (auto* cn : rg->Channels()) {
      if (cn->Name() == base + ".BusChannel") obus[k] = CreateChannelObserver(*rd, *rg, *cn);
      if (cn->Name() == base + ".DataBytes") odata[k] = CreateChannelObserver(*rd, *rg, *cn);
    }
    vp_assert(obus[k] != nullptr, "bus channel is in the file");
    vp_assert((odata[k] != nullptr) == HasChannel(*Group(*m.dg, base), base + ".DataBytes"), "payload channel is in the file");
  }
  vp_assert(reader.ReadData(*rd), "the data can be read");
  for (unsigned k = 0; k < 2; ++k) {
    for (size_t i = 0; i < all[k].size(); ++i) {
      const F& f = all[k][i];
      uint64_t b = 0;
      vp_assert(obus[k]->GetChannelValue(i, b) && b == f.bus, "bus of each event");
      if (!odata[k]) continue;  // no payload among the mandatory members
      std::vector<uint8_t> data;
      vp_assert(odata[k]->GetChannelValue(i, data), "payload of each event is valid");
      if (bus == 0) data.resize(f.data.size() < data.size() ? f.data.size() : data.size());  // padded in the record
      vp_assert(Same(data, f.data), "payload of each event");
    }
  }
  if (m.storage == MdfStorageType::VlsdStorage) vp_reach("variable length group");
  else if (m.storage == MdfStorageType::MlsdStorage) vp_reach("in the record");
  else vp_reach("signal data");
}
