// Contracts of a whole MDF 3 measurement: what is handed to the writer is what a
// reader of the finished file gets.
#include "e2e.h"

// One group with channels of every kind; every value.
VP_CONTRACT(e2e3_values) {
  Measurement m(MdfWriterType::Mdf3Basic);
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup();
  Time(*cg);
  auto* a = Channel(*cg, "a", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 2);
  auto* b = Channel(*cg, "b", ChannelType::FixedLength, ChannelDataType::SignedIntegerBe, 4);
  auto* c = Channel(*cg, "c", ChannelType::FixedLength, ChannelDataType::FloatLe, 4);
  auto* d = Channel(*cg, "d", ChannelType::FixedLength, ChannelDataType::StringAscii, 3);
  auto* e = Channel(*cg, "e", ChannelType::FixedLength, ChannelDataType::ByteArray, 2);
  auto* f = Channel(*cg, "f", ChannelType::FixedLength, ChannelDataType::FloatBe, 8);
  m.Start();
  const unsigned n = static_cast<unsigned>(vp_choose(3, "samples"));
  struct S { uint16_t a; int32_t b; float c; std::string d; std::vector<uint8_t> e; double f; uint64_t at; };
  std::vector<S> all;
  for (unsigned i = 0; i < n; ++i) {
    S s;
    s.a = vp_nd_u16("a");
    s.b = static_cast<int32_t>(vp_nd_u32("b"));
    s.c = vp_nd_float("c");
    const auto text = vp_vec(vp_choose(3, "text"), "d");
    for (const auto x : text) vp_assume(x != 0 && x < 0x80);
    s.d.assign(text.begin(), text.end());
    s.e = vp_vec(2, "e");
    s.f = vp_nd_double("f");
    s.at = kStart + 1'000'000'007ULL * i;
    a->SetChannelValue(s.a);
    b->SetChannelValue(s.b);
    c->SetChannelValue(s.c);
    d->SetChannelValue(s.d);
    e->SetChannelValue(s.e);
    f->SetChannelValue(s.f);
    m.writer->SaveSample(*dg, *cg, s.at);
    all.push_back(s);
    m.MayWake();
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData(), "the file can be read");
  const auto groups = reader.GetHeader()->DataGroups();
  vp_assert(groups.size() == 1 && groups[0]->ChannelGroups().size() == 1, "the groups are in the file");
  const auto* rg = groups[0]->ChannelGroups()[0];
  vp_assert(rg->NofSamples() == n && rg->Channels().size() == 7, "every sample and channel is in the file");
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*groups[0], *rg, obs);
  vp_assert(reader.ReadData(*groups[0]), "the data can be read");
  const auto &ot = Find(obs, "t"), &oa = Find(obs, "a"), &ob = Find(obs, "b"), &oc = Find(obs, "c"), &od = Find(obs, "d"), &oe = Find(obs, "e"), &of = Find(obs, "f");
  for (unsigned i = 0; i < n; ++i) {
    const S& s = all[i];
    double t = -1, vf = 0;
    uint16_t va = 0; int32_t vb = 0; float vc = 0; std::string vd; std::vector<uint8_t> ve;
    vp_assert(ot.GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(Rel(s.at)), "the time of a sample is relative to the start");
    vp_assert(oa.GetChannelValue(i, va) && va == s.a, "unsigned value");
    vp_assert(ob.GetChannelValue(i, vb) && vb == s.b, "signed value");
    vp_assert(oc.GetChannelValue(i, vc) && (vp_fbits(vc) == vp_fbits(s.c) || s.c != s.c), "float value");
    vp_assert(od.GetChannelValue(i, vd) && vd == s.d, "text value");
    vp_assert(oe.GetChannelValue(i, ve) && ve == s.e, "byte array value");
    vp_assert(of.GetChannelValue(i, vf) && vp_dbits(vf) == vp_dbits(s.f), "double value");
  }
  vp_reach(n == 2 ? "two samples" : "measured");
}

// Samples of two groups of one data group in any order.
VP_CONTRACT(e2e3_groups) {
  Measurement m(MdfWriterType::Mdf3Basic);
  auto* dg = m.writer->CreateDataGroup();
  IChannelGroup* cg[2];
  IChannel* cn[2];
  for (unsigned k = 0; k < 2; ++k) {
    cg[k] = dg->CreateChannelGroup();
    Time(*cg[k]);
    cn[k] = Channel(*cg[k], k == 0 ? "a" : "b", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, k == 0 ? 1 : 8);
  }
  m.Start();
  const unsigned n = static_cast<unsigned>(vp_choose(4, "samples"));
  struct S { uint64_t v, at; };
  std::vector<S> all[2];
  uint64_t now = kStart;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned k = static_cast<unsigned>(vp_choose(2, "group"));
    now += 1'000'000'007ULL;
    const uint64_t v = k == 0 ? vp_nd_u8("v") : vp_nd_u64("v");
    cn[k]->SetChannelValue(v);
    m.writer->SaveSample(*dg, *cg[k], now);
    all[k].push_back({v, now});
    m.MayWake();
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData(), "the file can be read");
  const auto groups = reader.GetHeader()->DataGroups();
  vp_assert(groups.size() == 1 && groups[0]->ChannelGroups().size() == 2, "the groups are in the file");
  const unsigned sub = static_cast<unsigned>(vp_choose(3, "subscription"));
  const bool range = vp_choose(2, "range") == 1;
  const unsigned lo = range ? static_cast<unsigned>(vp_choose(3, "first")) : 0, hi = range ? lo + static_cast<unsigned>(vp_choose(3, "more")) : 100;
  ChannelObserverList obs[2];
  for (unsigned k = 0; k < 2; ++k) {
    const auto* rg = groups[0]->ChannelGroups()[k];
    vp_assert(rg->NofSamples() == all[k].size(), "every sample is counted in its group");
    if (sub == 2 || sub == k) CreateChannelObserverForChannelGroup(*groups[0], *rg, obs[k]);
  }
  vp_assert(range ? reader.ReadPartialData(*groups[0], lo, hi) : reader.ReadData(*groups[0]), "the data can be read");
  for (unsigned k = 0; k < 2; ++k) {
    if (sub != 2 && sub != k) continue;
    const auto &ot = Find(obs[k], "t"), &ov = Find(obs[k], k == 0 ? "a" : "b");
    for (unsigned i = 0; i < all[k].size(); ++i) {
      double t = -1;
      uint64_t v = 0;
      const bool have = ov.GetChannelValue(i, v);
      if (i + 1 >= lo && i + 1 <= hi) {
        vp_assert(have && v == all[k][i].v, "values of a group, in order");
        vp_assert(ot.GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(Rel(all[k][i].at)), "times of a group, in order");
      } else if (have) {
        vp_assert(v == all[k][i].v, "no wrong sample");
      }
    }
  }
  vp_reach(n == 3 ? "three samples" : "measured");
}

// Two data groups in one measurement.
VP_CONTRACT(e2e3_data_groups) {
  Measurement m(MdfWriterType::Mdf3Basic);
  m.writer->SavePeriodic(vp_choose(2, "periodic") == 1);
  IDataGroup* dg[2];
  IChannelGroup* cg[2];
  IChannel* cn[2];
  for (unsigned k = 0; k < 2; ++k) {
    dg[k] = m.writer->CreateDataGroup();
    cg[k] = dg[k]->CreateChannelGroup();
    Time(*cg[k]);
    cn[k] = Channel(*cg[k], k == 0 ? "a" : "b", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, k == 0 ? 1 : 8);
  }
  m.Start();
  const unsigned n = static_cast<unsigned>(vp_choose(4, "samples"));
  struct S { uint64_t v, at; };
  std::vector<S> all[2];
  uint64_t now = kStart;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned k = static_cast<unsigned>(vp_choose(2, "group"));
    now += 1'000'000'007ULL;
    const uint64_t v = k == 0 ? vp_nd_u8("v") : vp_nd_u64("v");
    cn[k]->SetChannelValue(v);
    m.writer->SaveSample(*dg[k], *cg[k], now);
    all[k].push_back({v, now});
    m.MayWake();
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData(), "the file can be read");
  const auto groups = reader.GetHeader()->DataGroups();
  vp_assert(groups.size() == 2, "the groups are in the file");
  for (unsigned k = 0; k < 2; ++k) {
    const auto* rg = groups[k]->ChannelGroups()[0];
    vp_assert(rg->NofSamples() == all[k].size(), "every sample is counted in its group");
    ChannelObserverList obs;
    CreateChannelObserverForChannelGroup(*groups[k], *rg, obs);
    reader.ReadData(*groups[k]);
    const auto &ot = Find(obs, "t"), &ov = Find(obs, k == 0 ? "a" : "b");
    for (unsigned i = 0; i < all[k].size(); ++i) {
      double t = -1;
      uint64_t v = 0;
      vp_assert(ov.GetChannelValue(i, v) && v == all[k][i].v, "values of a group, in order");
      vp_assert(ot.GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(Rel(all[k][i].at)), "times of a group, in order");
    }
  }
  vp_reach(n == 3 ? "three samples" : "measured");
}

// A second measurement appended to a finished file.
VP_CONTRACT(e2e3_append) {
  Measurement m(MdfWriterType::Mdf3Basic);
  const bool reopen = vp_choose(2, "reopen") == 1;
  const unsigned n[2] = {static_cast<unsigned>(vp_choose(3, "first")), static_cast<unsigned>(vp_choose(3, "second"))};
  uint32_t val[2][2];
  const uint64_t start[2] = {kStart, kStart + 5'000'000'000ULL};
  for (unsigned k = 0; k < 2; ++k) {
    if (k == 1 && reopen) {
      // What MdfWriter::Init(filename) does for a file that exists.
      auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf3Basic);
      w->Init(m.file);
      w->mdf_file_->ReadEverythingButData(*m.file);
      w->State(WriteState::Finalize);
      m.writer = std::move(w);
    }
    auto* dg = m.writer->CreateDataGroup();
    auto* cg = dg->CreateChannelGroup();
    Time(*cg);
    auto* a = Channel(*cg, k == 0 ? "a" : "b", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, k == 0 ? 4 : 2);
    m.Start(start[k]);
    for (unsigned i = 0; i < n[k]; ++i) {
      val[k][i] = k == 0 ? vp_nd_u32("v") : vp_nd_u16("v");
      a->SetChannelValue(val[k][i]);
      m.writer->SaveSample(*dg, *cg, start[k] + i * 1'000'000ULL);
      if (i == 0) m.MayWake();
    }
    m.Finish(start[k] + 1'000'000'000ULL);
  }
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData(), "the file can be read");
  const auto groups = reader.GetHeader()->DataGroups();
  vp_assert(groups.size() == 2, "both measurements are in the file");
  for (unsigned k = 0; k < 2; ++k) {
    const auto cgs = groups[k]->ChannelGroups();
    vp_assert(cgs.size() == 1 && cgs[0]->NofSamples() == n[k], "groups and counters of both measurements");
    ChannelObserverList obs;
    CreateChannelObserverForChannelGroup(*groups[k], *cgs[0], obs);
    reader.ReadData(*groups[k]);
    for (unsigned i = 0; i < n[k]; ++i) {
      uint32_t v = 0;
      double t = -1;
      vp_assert(Find(obs, k == 0 ? "a" : "b").GetChannelValue(i, v) && v == val[k][i], "values of both measurements");
      vp_assert(Find(obs, "t").GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(static_cast<double>(i * 1'000'000LL) / 1'000'000'000.0), "times of both measurements");
    }
  }
  vp_reach(n[0] == 2 && n[1] == 2 ? "appended" : "few");
}
