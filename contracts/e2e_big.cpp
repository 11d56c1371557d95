// Contracts of measurements whose data need more than one compressed block.
#include "e2e.h"

// Variable length data of one channel above the 4 MB of a compressed block.
VP_CONTRACT(big_signal_data) {
  Measurement m;
  m.writer->CompressData(true);
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup("A");
  Time(*cg);
  auto* a = Channel(*cg, "a", ChannelType::VariableLength, ChannelDataType::ByteArray, 8);
  m.Start();
  // The first block is full; what is left for the second one is small or large.
  std::vector<size_t> len{1'999'500, 1'999'500, 980, 30, 20};
  if (vp_choose(2, "rest") == 1) len.push_back(5'000);
  const uint8_t x = vp_nd_u8("x");
  for (size_t k = 0; k < len.size(); ++k) {
    std::vector<uint8_t> v(len[k], static_cast<uint8_t>(k + 1));
    v.front() = static_cast<uint8_t>(x + k); v.back() = x;
    a->SetChannelValue(v);
    m.writer->SaveSample(*dg, *cg, kStart + k);
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  const auto* rg = rd->ChannelGroups()[0];
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*rd, *rg, obs);
  vp_assert(reader.ReadData(*rd), "the data can be read");
  const auto& oa = Find(obs, "a");
  for (size_t k = 0; k < len.size(); ++k) {
    std::vector<uint8_t> v;
    vp_assert(oa.GetChannelValue(k, v) && v.size() == len[k], "length of each value");
    vp_assert(v.front() == static_cast<uint8_t>(x + k) && v.back() == x, "ends of each value");
  }
  vp_reach("big");
}

// Records above the 4 MB of a compressed block, saved in one go or in parts
// by the work thread while the measurement goes on.
VP_CONTRACT(big_records) {
  Measurement m;
  m.writer->CompressData(true);
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup("A");
  Time(*cg);
  // A hundred records are exactly at or just above the size of a block.
  const auto part = vp_choose(3, "part");
  const unsigned size = part == 2 ? 39'992 : 39'991;
  const unsigned n = 103;
  auto* a = Channel(*cg, "a", ChannelType::FixedLength, ChannelDataType::ByteArray, size);
  auto* b = Channel(*cg, "b", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 1);
  vp_assert(b != nullptr, "channel");
  m.Start();
  const bool wake = part > 0;
  const uint8_t x = vp_nd_u8("x");
  for (unsigned k = 0; k < n; ++k) {
    std::vector<uint8_t> v(size, static_cast<uint8_t>(k + 1));
    v.front() = static_cast<uint8_t>(x + k); v.back() = x;
    a->SetChannelValue(v);
    b->SetChannelValue(k);
    m.writer->SaveSample(*dg, *cg, kStart + k);
    if (wake && k == 101) m.Wake();
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  const auto* rg = rd->ChannelGroups()[0];
  vp_assert(rg->NofSamples() == n, "every sample is counted");
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*rd, *rg, obs);
  vp_assert(reader.ReadData(*rd), "the data can be read");
  const auto &oa = Find(obs, "a"), &ob = Find(obs, "b");
  for (unsigned k = 0; k < n; ++k) {
    std::vector<uint8_t> v;
    unsigned u = 99;
    vp_assert(ob.GetChannelValue(k, u) && u == k, "samples in order");
    vp_assert(oa.GetChannelValue(k, v) && v.size() == size, "length of each value");
    vp_assert(v.front() == static_cast<uint8_t>(x + k) && v.back() == x && v[size / 2] == k + 1, "bytes of each value");
  }
  if (wake) vp_reach("saved in parts");
  else vp_reach("saved at the end");
}
