// Contracts of a whole measurement: what is handed to the writer is what a
// reader of the finished file gets, for every channel layout below and every
// sequence of samples (values and times are universally quantified).
#include "e2e.h"

// One group with channels of every kind; every value, every validity and
// every time; the record layout is the library's own.
VP_CONTRACT(e2e_layout) {
  Measurement m(AnyWriter());
  const bool invalid = vp_choose(2, "invalidation bits") == 1;
  m.writer->CompressData(vp_choose(2, "compress") == 1);
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup("A");
  Time(*cg);
  auto* a = Channel(*cg, "a", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 2);
  auto* b = Channel(*cg, "b", ChannelType::FixedLength, ChannelDataType::SignedIntegerBe, 4);
  auto* c = Channel(*cg, "c", ChannelType::FixedLength, ChannelDataType::FloatLe, 4);
  auto* d = Channel(*cg, "d", ChannelType::FixedLength, ChannelDataType::StringAscii, 3);
  auto* e = Channel(*cg, "e", ChannelType::FixedLength, ChannelDataType::ByteArray, 2);
  auto* f = Channel(*cg, "f", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 8);
  if (invalid) {
    a->Flags(CnFlag::InvalidValid);
    f->Flags(CnFlag::InvalidValid);
  }
  m.Start();
  const unsigned n = static_cast<unsigned>(vp_choose(3, "samples"));
  struct S { uint16_t a; int32_t b; float c; std::string d; std::vector<uint8_t> e; uint64_t f, at; bool va, vf; };
  std::vector<S> all;
  for (unsigned i = 0; i < n; ++i) {
    S s;
    s.a = vp_nd_u16("a");
    s.b = static_cast<int32_t>(vp_nd_u32("b"));
    s.c = vp_nd_float("c");
    const auto text = vp_vec(i == 0 ? vp_choose(3, "text") : 2, "d");
    for (const auto x : text) vp_assume(x != 0 && x < 0x80);
    s.d.assign(text.begin(), text.end());
    s.e = vp_vec(2, "e");
    s.f = vp_nd_u64("f");
    s.va = !invalid || vp_choose(2, "valid a") == 1;
    s.vf = !invalid || vp_choose(2, "valid f") == 1;
    s.at = kStart + 1'000'000'007ULL * i;
    a->SetChannelValue(s.a, s.va);
    b->SetChannelValue(s.b);
    c->SetChannelValue(s.c);
    d->SetChannelValue(s.d);
    e->SetChannelValue(s.e);
    f->SetChannelValue(s.f, s.vf);
    m.writer->SaveSample(*dg, *cg, s.at);
    all.push_back(s);
    m.MayWake();
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData(), "the file can be read");
  const auto groups = reader.GetHeader()->DataGroups();
  vp_assert(groups.size() == 1 && groups[0]->ChannelGroups().size() == 1, "the groups are in the file");
  const auto* rg = groups[0]->ChannelGroups()[0];
  vp_assert(rg->NofSamples() == n && rg->Channels().size() == 7, "every sample and channel is in the file");
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*groups[0], *rg, obs);
  vp_assert(reader.ReadData(*groups[0]), "the data can be read");
  const auto &ot = Find(obs, "t"), &oa = Find(obs, "a"), &ob = Find(obs, "b"), &oc = Find(obs, "c"), &od = Find(obs, "d"), &oe = Find(obs, "e"), &of = Find(obs, "f");
  for (unsigned i = 0; i < n; ++i) {
    const S& s = all[i];
    double t = -1;
    uint16_t va = 0; int32_t vb = 0; float vc = 0; std::string vd; std::vector<uint8_t> ve; uint64_t vf = 0;
    vp_assert(ot.GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(Rel(s.at)), "the time of a sample is relative to the start");
    vp_assert(oa.GetChannelValue(i, va) == s.va && (!s.va || va == s.a), "unsigned value and its validity");
    vp_assert(ob.GetChannelValue(i, vb) && vb == s.b, "signed value");
    vp_assert(oc.GetChannelValue(i, vc) && (vp_fbits(vc) == vp_fbits(s.c) || s.c != s.c), "float value");
    vp_assert(od.GetChannelValue(i, vd) && vd == s.d, "text value");
    vp_assert(oe.GetChannelValue(i, ve) && ve == s.e, "byte array value");
    vp_assert(of.GetChannelValue(i, vf) == s.vf && (!s.vf || vf == s.f), "64 bit value and its validity");
  }
  vp_reach(n == 2 ? "two samples" : "measured");
}

// Several groups in one data group, samples interleaved in any order; a reader
// that subscribes on all or on one of the groups.
VP_CONTRACT(e2e_groups) {
  Measurement m(AnyWriter());
  m.writer->CompressData(vp_choose(2, "compress") == 1);
  auto* dg = m.writer->CreateDataGroup();
  IChannelGroup* cg[2];
  IChannel* cn[2];
  for (unsigned k = 0; k < 2; ++k) {
    cg[k] = dg->CreateChannelGroup(k == 0 ? "A" : "B");
    Time(*cg[k]);
    cn[k] = Channel(*cg[k], k == 0 ? "a" : "b", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, k == 0 ? 1 : 8);
  }
  m.Start();
  const unsigned n = static_cast<unsigned>(vp_choose(4, "samples"));
  struct S { uint64_t v, at; };
  std::vector<S> all[2];
  uint64_t now = kStart;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned k = static_cast<unsigned>(vp_choose(2, "group"));
    now += 1'000'000'007ULL;
    const uint64_t v = k == 0 ? vp_nd_u8("v") : vp_nd_u64("v");
    cn[k]->SetChannelValue(v);
    m.writer->SaveSample(*dg, *cg[k], now);
    all[k].push_back({v, now});
    m.MayWake();
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData(), "the file can be read");
  const auto groups = reader.GetHeader()->DataGroups();
  vp_assert(groups.size() == 1 && groups[0]->ChannelGroups().size() == 2, "the groups are in the file");
  const unsigned sub = static_cast<unsigned>(vp_choose(3, "subscription"));
  ChannelObserverList obs[2];
  for (unsigned k = 0; k < 2; ++k) {
    const auto* rg = groups[0]->ChannelGroups()[k];
    vp_assert(rg->NofSamples() == all[k].size() && rg->Name() == (k == 0 ? "A" : "B"), "every sample is counted in its group");
    if (sub == 2 || sub == k) CreateChannelObserverForChannelGroup(*groups[0], *rg, obs[k]);
  }
  vp_assert(reader.ReadData(*groups[0]), "the data can be read");
  for (unsigned k = 0; k < 2; ++k) {
    if (sub != 2 && sub != k) continue;
    const auto &ot = Find(obs[k], "t"), &ov = Find(obs[k], k == 0 ? "a" : "b");
    for (unsigned i = 0; i < all[k].size(); ++i) {
      double t = -1;
      uint64_t v = 0;
      vp_assert(ot.GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(Rel(all[k][i].at)), "times of a group, in order");
      vp_assert(ov.GetChannelValue(i, v) && v == all[k][i].v, "values of a group, in order");
    }
  }
  vp_reach(n == 3 ? "three samples" : "measured");
}

// The time channel of every sample, for every time.
VP_CONTRACT(e2e_time) {
  Measurement m(AnyWriter());
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup("A");
  Time(*cg);
  m.Start();
  uint64_t at[2];
  for (unsigned i = 0; i < 2; ++i) {
    at[i] = vp_nd_u64("at");
    vp_assume(at[i] >= kStart && at[i] < kStart + (1ULL << 60) && (i == 0 || at[0] <= at[1]));
    m.writer->SaveSample(*dg, *cg, at[i]);
  }
  m.Finish(kStart + (1ULL << 60));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  vp_assert(reader.GetHeader()->StartTime() == kStart, "the start time of the file");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  ChannelObserverList obs;
  CreateChannelObserverForDataGroup(*rd, obs);
  vp_assert(reader.ReadData(*rd) && obs.size() == 1 && obs[0]->NofSamples() == 2, "the data can be read");
  for (unsigned i = 0; i < 2; ++i) {
    double t = -1;
    vp_assert(obs[0]->GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(Rel(at[i])), "the time of a sample is its time since the start");
  }
  vp_reach("time");
}

// Values of variable length (texts and byte arrays), stored apart from the
// records, with and without compression.
VP_CONTRACT(e2e_variable) {
  Measurement m(AnyWriter());
  const bool compress = vp_choose(2, "compress") == 1;
  const bool large = compress && vp_choose(2, "large") == 1;
  m.writer->CompressData(compress);
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup("A");
  Time(*cg);
  auto* a = Channel(*cg, "a", ChannelType::VariableLength, ChannelDataType::StringUTF8, 8);
  auto* b = Channel(*cg, "b", ChannelType::VariableLength, ChannelDataType::ByteArray, 8);
  auto* c = Channel(*cg, "c", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 1);
  m.Start();
  const unsigned n = static_cast<unsigned>(vp_choose(3, "samples"));
  std::vector<std::string> texts;
  std::vector<std::vector<uint8_t>> arrays;
  std::vector<uint8_t> small;
  for (unsigned i = 0; i < n; ++i) {
    const auto t = vp_vec(vp_choose(3, "text length"), "text");
    for (const auto x : t) vp_assume(x != 0);
    texts.emplace_back(t.begin(), t.end());
    arrays.push_back(vp_vec((large ? 97 : 0) + vp_choose(3, "array length"), "array"));
    small.push_back(vp_nd_u8("small"));
    a->SetChannelValue(texts.back());
    b->SetChannelValue(arrays.back());
    c->SetChannelValue(small.back());
    m.writer->SaveSample(*dg, *cg, kStart + i);
    if (i == 0) m.MayWake();
  }
  m.Finish(kStart + 100);
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  const auto* rg = rd->ChannelGroups()[0];
  vp_assert(rg->NofSamples() == n, "every sample is in the file");
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*rd, *rg, obs);
  vp_assert(reader.ReadData(*rd), "the data can be read");
  for (unsigned i = 0; i < n; ++i) {
    std::string s;
    std::vector<uint8_t> v;
    uint8_t u = 0;
    vp_assert(Find(obs, "a").GetChannelValue(i, s) && s == texts[i], "text of any length");
    vp_assert(Find(obs, "b").GetChannelValue(i, v) && v == arrays[i], "byte array of any length");
    vp_assert(Find(obs, "c").GetChannelValue(i, u) && u == small[i], "fixed value beside them");
  }
  vp_reach(large && n == 2 ? "compressed" : "variable");
}

// Records large enough to be stored compressed.
VP_CONTRACT(e2e_compressed) {
  Measurement m(AnyWriter());
  m.writer->CompressData(true);
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup("A");
  Time(*cg);
  auto* a = Channel(*cg, "a", ChannelType::FixedLength, ChannelDataType::ByteArray, 48);
  m.Start();
  const unsigned n = 1 + static_cast<unsigned>(vp_choose(3, "samples"));
  std::vector<std::vector<uint8_t>> arrays;
  for (unsigned i = 0; i < n; ++i) {
    arrays.push_back(vp_vec(48, "array"));
    a->SetChannelValue(arrays.back());
    m.writer->SaveSample(*dg, *cg, kStart + i);
  }
  m.Finish(kStart + 100);
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  const auto* rg = rd->ChannelGroups()[0];
  vp_assert(rg->NofSamples() == n, "every sample is in the file");
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*rd, *rg, obs);
  vp_assert(reader.ReadData(*rd), "the data can be read");
  for (unsigned i = 0; i < n; ++i) {
    std::vector<uint8_t> v;
    double t = -1;
    vp_assert(Find(obs, "t").GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(Rel(kStart + i)), "time");
    vp_assert(Find(obs, "a").GetChannelValue(i, v) && v == arrays[i], "value");
  }
  vp_reach("compressed");
}

// A second measurement appended to the file: the first one is kept.
VP_CONTRACT(e2e_append) {
  Measurement m(AnyWriter());
  const bool reopen = vp_choose(2, "reopen") == 1;
  const unsigned n[2] = {static_cast<unsigned>(vp_choose(3, "first")), static_cast<unsigned>(vp_choose(3, "second"))};
  uint32_t val[2][2];
  const uint64_t start[2] = {kStart, kStart + 5'000'000'000ULL};
  for (unsigned k = 0; k < 2; ++k) {
    if (k == 1 && reopen) {
      // What MdfWriter::Init(filename) does for a file that exists.
      auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
      w->Init(m.file);
      w->mdf_file_->ReadEverythingButData(*m.file);
      w->State(WriteState::Finalize);
      m.writer = std::move(w);
    }
    m.writer->CompressData(vp_choose(2, k == 0 ? "compress first" : "compress second") == 1);
    auto* dg = m.writer->CreateDataGroup();
    auto* cg = dg->CreateChannelGroup(k == 0 ? "A" : "B");
    Time(*cg);
    auto* a = Channel(*cg, k == 0 ? "a" : "b", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, k == 0 ? 4 : 2);
    m.Start(start[k]);
    for (unsigned i = 0; i < n[k]; ++i) {
      val[k][i] = k == 0 ? vp_nd_u32("v") : vp_nd_u16("v");
      a->SetChannelValue(val[k][i]);
      m.writer->SaveSample(*dg, *cg, start[k] + i * 1'000'000ULL);
      if (i == 0) m.MayWake();
    }
    m.Finish(start[k] + 1'000'000'000ULL);
  }
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData(), "the file can be read");
  const auto groups = reader.GetHeader()->DataGroups();
  // A measurement without samples is continued by the next one.
  vp_assert(groups.size() == 2, "both measurements are in the file");
  for (unsigned k = 0; k < 2; ++k) {
    const auto cgs = groups[k]->ChannelGroups();
    vp_assert(cgs.size() == 1 && cgs[0]->NofSamples() == n[k] && cgs[0]->Name() == (k == 0 ? "A" : "B"), "groups and counters of both measurements");
    ChannelObserverList obs;
    CreateChannelObserverForChannelGroup(*groups[k], *cgs[0], obs);
    reader.ReadData(*groups[k]);
    for (unsigned i = 0; i < n[k]; ++i) {
      uint32_t v = 0;
      double t = -1;
      vp_assert(Find(obs, "t").GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(static_cast<double>(i * 1'000'000LL) / 1'000'000'000.0), "times of both measurements");
      vp_assert(Find(obs, k == 0 ? "a" : "b").GetChannelValue(i, v) && v == val[k][i], "values of both measurements");
    }
  }
  vp_reach(n[0] == 2 && n[1] == 2 ? "appended" : "few");
}

// Two data groups in one measurement, samples in any order.
VP_CONTRACT(e2e_data_groups) {
  Measurement m(AnyWriter());
  m.writer->CompressData(vp_choose(2, "compress") == 1);
  m.writer->SavePeriodic(vp_choose(2, "periodic") == 1);
  IDataGroup* dg[2];
  IChannelGroup* cg[2];
  IChannel* cn[2];
  for (unsigned k = 0; k < 2; ++k) {
    dg[k] = m.writer->CreateDataGroup();
    cg[k] = dg[k]->CreateChannelGroup(k == 0 ? "A" : "B");
    Time(*cg[k]);
    cn[k] = Channel(*cg[k], k == 0 ? "a" : "b", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, k == 0 ? 1 : 8);
  }
  m.Start();
  const unsigned n = static_cast<unsigned>(vp_choose(4, "samples"));
  struct S { uint64_t v, at; };
  std::vector<S> all[2];
  uint64_t now = kStart;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned k = static_cast<unsigned>(vp_choose(2, "group"));
    now += 1'000'000'007ULL;
    const uint64_t v = k == 0 ? vp_nd_u8("v") : vp_nd_u64("v");
    cn[k]->SetChannelValue(v);
    m.writer->SaveSample(*dg[k], *cg[k], now);
    all[k].push_back({v, now});
    m.MayWake();
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData(), "the file can be read");
  const auto groups = reader.GetHeader()->DataGroups();
  vp_assert(groups.size() == 2, "the groups are in the file");
  for (unsigned k = 0; k < 2; ++k) {
    const auto* rg = groups[k]->ChannelGroups()[0];
    vp_assert(rg->NofSamples() == all[k].size() && rg->Name() == (k == 0 ? "A" : "B"), "every sample is counted in its group");
    ChannelObserverList obs;
    CreateChannelObserverForChannelGroup(*groups[k], *rg, obs);
    reader.ReadData(*groups[k]);
    const auto &ot = Find(obs, "t"), &ov = Find(obs, k == 0 ? "a" : "b");
    for (unsigned i = 0; i < all[k].size(); ++i) {
      double t = -1;
      uint64_t v = 0;
      vp_assert(ot.GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(Rel(all[k][i].at)), "times of a group, in order");
      vp_assert(ov.GetChannelValue(i, v) && v == all[k][i].v, "values of a group, in order");
    }
  }
  vp_reach(n == 3 ? "three samples" : "measured");
}

// Samples before the start of the measurement: those within the pre-trigger
// time are kept, at most one older sample is, and nothing is reordered.
VP_CONTRACT(e2e_pretrigger) {
  Measurement m;
  const uint64_t pre = 1'000'000'000ULL * vp_choose(3, "seconds");
  m.writer->PreTrigTime(static_cast<double>(pre) / 1e9);
  m.writer->CompressData(vp_choose(2, "compress") == 1);
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup("A");
  Time(*cg);
  auto* a = Channel(*cg, "a", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 4);
  vp_assert(m.writer->InitMeasurement(), "the measurement can be prepared");
  const unsigned n = 3;
  const unsigned before = static_cast<unsigned>(vp_choose(4, "before"));
  const uint64_t shift = vp_choose(2, "on the edge of the window") == 1 ? 0 : 500'000'000ULL;
  std::vector<uint64_t> at;
  std::vector<uint32_t> val;
  for (unsigned i = 0; i < n; ++i) {
    if (i == before) m.writer->StartMeasurement(kStart);
    const uint64_t t = i < before ? kStart - shift - 1'000'000'000ULL * (before - 1 - i) : kStart + i;
    at.push_back(t);
    val.push_back(vp_nd_u32("v"));
    a->SetChannelValue(val.back());
    m.writer->SaveSample(*dg, *cg, t);
    m.MayWake();
  }
  if (before == n) m.writer->StartMeasurement(kStart);
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  const auto* rg = rd->ChannelGroups()[0];
  unsigned inside = 0;
  for (const uint64_t t : at) inside += t >= kStart - pre ? 1 : 0;
  const unsigned stored = static_cast<unsigned>(rg->NofSamples());
  vp_assert(stored >= inside, "every sample within the pre-trigger time is stored");
  vp_assert(stored <= inside + 1, "at most one older sample is stored");
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*rd, *rg, obs);
  reader.ReadData(*rd);
  for (unsigned i = 0; i < stored; ++i) {
    const unsigned k = n - stored + i;
    uint32_t v = 0;
    double t = 0;
    vp_assert(Find(obs, "t").GetChannelValue(i, t) && vp_dbits(t) == vp_dbits(Rel(at[k])), "time of a stored sample");
    vp_assert(Find(obs, "a").GetChannelValue(i, v) && v == val[k], "value of a stored sample");
  }
  vp_reach(before == n ? "all before" : "started");
}

// A reader asks for a range of the samples.  The library counts the samples of
// a range from one (sample number k is sample index k - 1).
VP_CONTRACT(e2e_partial) {
  Measurement m(AnyWriter());
  m.writer->CompressData(vp_choose(2, "compress") == 1);
  auto* dg = m.writer->CreateDataGroup();
  IChannelGroup* cg[2];
  IChannel* cn[2];
  const unsigned ngroups = 1 + static_cast<unsigned>(vp_choose(2, "groups"));
  for (unsigned k = 0; k < ngroups; ++k) {
    cg[k] = dg->CreateChannelGroup(k == 0 ? "A" : "B");
    Time(*cg[k]);
    cn[k] = Channel(*cg[k], k == 0 ? "a" : "b", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, k == 0 ? 1 : 4);
  }
  m.Start();
  uint32_t val[2][3];
  for (unsigned i = 0; i < 3; ++i) {
    for (unsigned k = 0; k < ngroups; ++k) {
      val[k][i] = k == 0 ? vp_nd_u8("v") : vp_nd_u32("v");
      cn[k]->SetChannelValue(val[k][i]);
      m.writer->SaveSample(*dg, *cg[k], kStart + i);
    }
  }
  m.Finish(kStart + 100);
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  const unsigned sub = static_cast<unsigned>(vp_choose(ngroups, "subscription"));
  const unsigned lo = static_cast<unsigned>(vp_choose(4, "first")), hi = lo + static_cast<unsigned>(vp_choose(3, "more"));
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*rd, *rd->ChannelGroups()[sub], obs);
  vp_assert(reader.ReadPartialData(*rd, lo, hi), "the range can be read");
  for (unsigned i = 0; i < 3; ++i) {
    uint32_t v = 0;
    const bool ok = Find(obs, sub == 0 ? "a" : "b").GetChannelValue(i, v);
    if (i + 1 >= lo && i + 1 <= hi) vp_assert(ok && v == val[sub][i], "samples inside the range");
    if (ok) vp_assert(v == val[sub][i], "no wrong sample");
  }
  vp_reach("partial");
}

// Many channels of every width and byte order, each with an invalidation bit:
// the layout of the record, the observer of each width and the bit of each
// channel.
VP_CONTRACT(e2e_wide) {
  static const unsigned kCount[4] = {7, 8, 9, 17};
  const unsigned count = kCount[vp_choose(4, "channels")];
  const unsigned n = 2;
  // Channel and sample that are invalid; the other samples are valid.
  static const unsigned kBad[3] = {0, 6, 100};
  unsigned bad = kBad[vp_choose(3, "bad")];
  if (bad == 100) bad = count - 1;
  const unsigned bad_sample = static_cast<unsigned>(vp_choose(3, "bad sample"));   // 2: none
  Measurement m(AnyWriter());
  m.writer->CompressData(false);
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup("A");
  Time(*cg);
  static const ChannelDataType kType[4] = {ChannelDataType::UnsignedIntegerLe, ChannelDataType::SignedIntegerLe, ChannelDataType::UnsignedIntegerBe, ChannelDataType::SignedIntegerBe};
  std::vector<IChannel*> cn;
  std::vector<std::string> name;
  for (unsigned i = 0; i < count; ++i) {
    name.push_back(std::string(1, static_cast<char>('a' + i)));
    const bool le = (i & 3) < 2;
    const unsigned bytes = le ? 1 + i % 8 : 1u << (i % 4);
    cn.push_back(Channel(*cg, name.back().c_str(), ChannelType::FixedLength, kType[i & 3], bytes));
    cn.back()->Flags(CnFlag::InvalidValid);
  }
  m.Start();
  std::vector<uint64_t> val;
  for (unsigned k = 0; k < n; ++k) {
    for (unsigned i = 0; i < count; ++i) {
      const bool valid = !(i == bad && k == bad_sample);
      const unsigned bits = 8 * static_cast<unsigned>(cn[i]->DataBytes());
      const uint64_t raw = vp_nd_u64("v");
      const uint64_t u = bits == 64 ? raw : raw & ((1ULL << bits) - 1);
      if ((i & 1) == 0) { val.push_back(u); cn[i]->SetChannelValue(u, valid); }
      else { const int64_t x = static_cast<int64_t>(u << (64 - bits)) >> (64 - bits); val.push_back(static_cast<uint64_t>(x)); cn[i]->SetChannelValue(x, valid); }
    }
    m.writer->SaveSample(*dg, *cg, kStart + k);
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  const auto* rg = rd->ChannelGroups()[0];
  vp_assert(rg->NofSamples() == n && rg->Channels().size() == count + 1, "every sample and channel is in the file");
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*rd, *rg, obs);
  vp_assert(reader.ReadData(*rd), "the data can be read");
  for (unsigned i = 0; i < count; ++i) {
    const auto& o = Find(obs, name[i].c_str());
    vp_assert(o.NofSamples() == n, "samples of an observer");
    for (unsigned k = 0; k < n; ++k) {
      const bool valid = !(i == bad && k == bad_sample);
      bool ok = false;
      uint64_t got = 0;
      if ((i & 1) == 0) { uint64_t v = 0; ok = o.GetChannelValue(k, v); got = v; }
      else { int64_t v = 0; ok = o.GetChannelValue(k, v); got = static_cast<uint64_t>(v); }
      vp_assert(ok == valid && o.GetValidList()[k] == valid, "validity of each channel and sample");
      vp_assert(!valid || got == val[k * count + i], "value of each channel and sample");
    }
    std::vector<uint64_t> us;
    const auto flags = o.GetChannelSamples(us);
    vp_assert(flags.size() == n && us.size() == n, "all samples at once");
    for (unsigned k = 0; k < n; ++k) {
      const bool valid = !(i == bad && k == bad_sample);
      vp_assert(flags[k] == valid && (!valid || us[k] == val[k * count + i]), "all samples at once");
    }
  }
  if (bad_sample < n) vp_reach("invalid");
  else vp_reach("valid");
}

// Array channels: every element of every sample, its validity and the shape.
VP_CONTRACT(e2e_array) {
  const bool two = vp_choose(2, "dimensions") == 1;
  const bool le = vp_choose(2, "order") == 0;
  const unsigned bytes = vp_choose(2, "bytes") == 0 ? 2 : 8;
  const std::vector<uint64_t> shape = two ? std::vector<uint64_t>{2, 3} : std::vector<uint64_t>{3};
  const unsigned size = two ? 6 : 3, n = 2;
  const unsigned bad = static_cast<unsigned>(vp_choose(size + 1, "bad"));
  Measurement m(AnyWriter());
  m.writer->CompressData(vp_choose(2, "compress") == 1);
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup("A");
  Time(*cg);
  auto* a = Channel(*cg, "a", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 2);
  auto* b = Channel(*cg, "b", ChannelType::FixedLength, le ? ChannelDataType::UnsignedIntegerLe : ChannelDataType::UnsignedIntegerBe, bytes);
  b->Flags(CnFlag::InvalidValid);
  b->CreateChannelArray()->Shape(shape);
  auto* c = Channel(*cg, "c", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 4);
  c->Flags(CnFlag::InvalidValid);
  m.Start();
  std::vector<uint64_t> va, vb, vc;
  for (unsigned k = 0; k < n; ++k) {
    va.push_back(vp_nd_u16("a"));
    vc.push_back(vp_nd_u32("c"));
    a->SetChannelValue(va[k]);
    for (unsigned i = 0; i < size; ++i) {
      vb.push_back(bytes == 2 ? vp_nd_u16("b") : vp_nd_u64("b"));
      b->SetChannelValue(vb.back(), !(k == 1 && i == bad), i);
    }
    c->SetChannelValue(vc[k], k == 1);
    m.writer->SaveSample(*dg, *cg, kStart + k);
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  const auto* rg = rd->ChannelGroups()[0];
  vp_assert(rg->NofSamples() == n && rg->Channels().size() == 4, "every sample and channel is in the file");
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*rd, *rg, obs);
  vp_assert(reader.ReadData(*rd), "the data can be read");
  const auto &oa = Find(obs, "a"), &ob = Find(obs, "b"), &oc = Find(obs, "c");
  vp_assert(ob.IsArray() && ob.ArraySize() == size && ob.Shape() == shape && !oa.IsArray() && oa.ArraySize() == 1 && ob.NofSamples() == n, "shape of the array");
  for (unsigned k = 0; k < n; ++k) {
    uint64_t x = 0, z = 0;
    vp_assert(oa.GetChannelValue(k, x) && x == va[k], "channel before the array");
    vp_assert(oc.GetChannelValue(k, z) == (k == 1) && z == vc[k], "channel after the array and its validity");
    std::vector<uint64_t> all;
    const auto flags = ob.GetChannelValues(k, all);
    vp_assert(flags.size() == size && all.size() == size, "all elements at once");
    for (unsigned i = 0; i < size; ++i) {
      const bool valid = !(k == 1 && i == bad);
      uint64_t y = 0;
      const bool ok = ob.GetChannelValue(k, y, i);
      vp_assert(ok == valid && flags[i] == valid, "validity of each element");
      vp_assert(y == vb[k * size + i] && all[i] == vb[k * size + i], "value of each element");
    }
  }
  vp_reach("array");
}

// Engineering values and virtual channels of a finished file.
VP_CONTRACT(e2e_engineering) {
  const unsigned t = static_cast<unsigned>(vp_choose(3, "type"));
  Measurement m(AnyWriter());
  m.writer->CompressData(vp_choose(2, "compress") == 1);
  auto* dg = m.writer->CreateDataGroup();
  auto* cg = dg->CreateChannelGroup("A");
  Time(*cg);
  auto* a = Channel(*cg, "a", ChannelType::FixedLength, t == 0 ? ChannelDataType::UnsignedIntegerLe : t == 1 ? ChannelDataType::SignedIntegerLe : ChannelDataType::FloatLe, t == 2 ? 8 : 2);
  a->Flags(CnFlag::InvalidValid);
  auto* cc = a->CreateChannelConversion();
  cc->Type(ConversionType::Linear);
  cc->Parameter(0, -40.0);
  cc->Parameter(1, 0.5);
  auto* b = Channel(*cg, "b", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 1);
  auto* cb = b->CreateChannelConversion();
  cb->Type(ConversionType::ValueToText);
  cb->Parameter(0, 1.0); cb->Reference(0, "on");
  cb->Parameter(1, 2.0); cb->Reference(1, "off");
  cb->Reference(2, "unknown");
  auto* v = Channel(*cg, "v", ChannelType::VirtualData, ChannelDataType::UnsignedIntegerLe, 0);
  vp_assert(v != nullptr, "virtual channel");
  m.Start();
  const unsigned n = 2;
  std::vector<uint16_t> va;
  std::vector<double> vd;
  const uint8_t state = static_cast<uint8_t>(vp_choose(4, "state"));
  const bool valid = vp_choose(2, "valid") == 1;
  for (unsigned k = 0; k < n; ++k) {
    va.push_back(vp_nd_u16("a"));
    // The observer widens to 64 bits before it converts.
    if (t == 0) vd.push_back(static_cast<double>(static_cast<uint64_t>(va[k])));
    else if (t == 1) vd.push_back(static_cast<double>(static_cast<int64_t>(static_cast<int16_t>(va[k]))));
    else { vd.push_back(vp_nd_double("d")); }
    if (t == 0) a->SetChannelValue(va[k], valid || k == 0);
    else if (t == 1) a->SetChannelValue(static_cast<int16_t>(va[k]), valid || k == 0);
    else a->SetChannelValue(vd[k], valid || k == 0);
    b->SetChannelValue(k == 0 ? state : static_cast<uint8_t>(1));
    m.writer->SaveSample(*dg, *cg, kStart + k);
  }
  m.Finish(kStart + (1ULL << 50));
  MdfReader reader(m.file);
  vp_assert(reader.ReadEverythingButData() && reader.GetHeader()->DataGroups().size() == 1, "the file can be read");
  auto* rd = reader.GetHeader()->DataGroups()[0];
  const auto* rg = rd->ChannelGroups()[0];
  ChannelObserverList obs;
  CreateChannelObserverForChannelGroup(*rd, *rg, obs);
  vp_assert(reader.ReadData(*rd), "the data can be read");
  const auto &oa = Find(obs, "a"), &ob = Find(obs, "b"), &ov = Find(obs, "v");
  std::vector<double> all;
  const auto flags = oa.GetEngSamples(all);
  vp_assert(flags.size() == n && all.size() == n, "all engineering values at once");
  for (unsigned k = 0; k < n; ++k) {
    const bool ok = valid || k == 0;
    double e = 0;
    vp_assert(oa.GetEngValue(k, e) == ok && flags[k] == ok, "validity of an engineering value");
    vp_assert(!ok || (vp_dbits(e) == vp_dbits(-40.0 + 0.5 * vd[k]) && vp_dbits(all[k]) == vp_dbits(e)), "engineering value by the conversion of the channel");
    std::string text;
    const uint8_t x = k == 0 ? state : 1;
    vp_assert(ob.GetEngValue(k, text) && text == (x == 1 ? "on" : x == 2 ? "off" : "unknown"), "text by the conversion of the channel");
    uint64_t row = 99;
    vp_assert(ov.GetChannelValue(k, row) && row == k, "a virtual channel counts the samples");
  }
  vp_reach("engineering");
}

// The sample queue drops from its front exactly the samples that are out of
// the pre-trigger window, whatever their times.
VP_CONTRACT(queue_trim) {
  Measurement m;
  auto* dg = m.writer->CreateDataGroup();
  SampleQueue q(*m.writer, *dg);
  const unsigned n = static_cast<unsigned>(vp_choose(5, "samples"));
  const bool started = vp_choose(2, "started") == 1;
  const uint64_t pre = vp_nd_u64("pre"), start = vp_nd_u64("start");
  vp_assume(start != 0 && start < (1ULL << 63) && pre <= start);
  m.writer->pre_trig_time_ = pre;
  m.writer->start_time_ = started ? start : 0;
  std::vector<uint64_t> at;
  for (unsigned i = 0; i < n; ++i) {
    SampleRecord r;
    r.timestamp = vp_nd_u64("t");
    vp_assume(r.timestamp < (1ULL << 63) && (i == 0 || r.timestamp >= at.back()));
    at.push_back(r.timestamp);
    r.record_id = i;
    r.record_buffer = vp_vec(i, "bytes");
    q.AddSample(std::move(r));
  }
  q.TrimQueue();
  const unsigned left = static_cast<unsigned>(q.queue_.size());
  vp_assert(left <= n && (n == 0 || left > 0), "the newest sample is never dropped");
  for (unsigned i = 0; i < left; ++i) vp_assert(q.queue_[i].record_id == n - left + i && q.queue_[i].timestamp == at[n - left + i], "what is left is the end of the queue, in order");
  if (n == 0) { vp_reach("empty"); return; }
  const uint64_t edge = started ? start - pre : (at.back() >= pre ? at.back() - pre : 0);
  for (unsigned i = 0; i < n; ++i) {
    const bool kept = i >= n - left;
    if (at[i] >= edge) vp_assert(kept, "no sample of the pre-trigger window is dropped");
    else if (i + 1 < n && at[i + 1] < edge) vp_assert(!kept, "samples older than the one before the window are dropped");
  }
  uint64_t size = 0;
  for (const auto& r : q.queue_) size += r.SampleSize();
  vp_assert(q.size_ == size, "the queue knows its size");
  if (started) vp_reach("started");
  else vp_reach("armed");
}
