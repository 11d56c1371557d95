// Helpers of the contracts on whole measurements.
#pragma once
#include "vp.h"
#include <memory>
#include "memfile.h"
#include "mdf/mdffactory.h"
#include "mdf/mdfreader.h"
#include "mdf/mdfwriter.h"
#include "mdf/ichannelgroup.h"
#include "mdf/idatagroup.h"
#include "mdf4writer.h"
#include "mdf3writer.h"
#include "samplequeue.h"
using namespace mdf;
using namespace mdf::detail;
namespace {
constexpr uint64_t kStart = 1'700'000'000'000'000'000ULL;
const char* const kNum[8] = {"0", "1", "2", "3", "4", "5", "6", "7"};
struct Measurement {
  std::shared_ptr<MemFile> file = std::make_shared<MemFile>(0);
  std::unique_ptr<MdfWriter> writer;
  explicit Measurement(MdfWriterType type = MdfWriterType::Mdf4Basic) : writer(MdfFactory::CreateMdfWriter(type)) {
    vp_assert(writer && writer->Init(file), "a writer on a stream");
  }
  // The work thread wakes up (its 10 s period) between two calls of the user.
  void Wake() {
    auto* w4 = dynamic_cast<Mdf4Writer*>(writer.get());
    auto* w3 = dynamic_cast<Mdf3Writer*>(writer.get());
    auto& cache = w4 != nullptr ? w4->write_cache_ : w3->write_cache_;
    std::unique_lock lock(cache.locker_);
    for (auto& [dg, queue] : cache.cache_) {
      if (writer->State() == WriteState::Init) queue->TrimQueue();
      else if (writer->IsSavePeriodic()) queue->SaveQueue(lock);
    }
  }
  void MayWake() { if (vp_choose(2, "wake") == 1) Wake(); }
  void Start(uint64_t at = kStart) {
    vp_assert(writer->InitMeasurement(), "the measurement can be prepared");
    writer->StartMeasurement(at);
  }
  void Finish(uint64_t at) {
    writer->StopMeasurement(at);
    vp_assert(writer->FinalizeMeasurement(), "the measurement can be finalized");
  }
};
// The writers of MDF4 files that store whatever they are given.
inline MdfWriterType AnyWriter() { return vp_choose(2, "writer") == 1 ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic; }
IChannel* Channel(IChannelGroup& cg, const char* name, ChannelType type, ChannelDataType data, unsigned bytes) {
  auto* cn = cg.CreateChannel(name);
  cn->Type(type);
  cn->DataType(data);
  cn->DataBytes(bytes);
  return cn;
}
IChannel* Time(IChannelGroup& cg) {
  auto* cn = Channel(cg, "t", ChannelType::Master, ChannelDataType::FloatLe, 8);
  cn->Sync(ChannelSyncType::Time);
  return cn;
}
double Rel(uint64_t at) { return static_cast<double>(static_cast<int64_t>(at - kStart)) / 1'000'000'000.0; }
const IChannelObserver& Find(const ChannelObserverList& list, const char* name) {
  for (const auto& o : list) {
    if (o && o->Name() == name) return *o;
  }
  vp_assert(false, "every channel is in the file");
  return *list.front();
}
}  // namespace
