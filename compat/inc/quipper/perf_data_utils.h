#ifndef VERIF_COMPAT_QUIPPER_PERF_DATA_UTILS_H_
#define VERIF_COMPAT_QUIPPER_PERF_DATA_UTILS_H_
#include "perf_data.pb.h"
namespace quipper {
inline const PerfDataProto::SampleInfo* GetSampleInfoForEvent(
    const PerfDataProto::PerfEvent& event) {
  switch (event.event_type_case()) {
    case PerfDataProto::PerfEvent::kMmapEvent:
      return &event.mmap_event().sample_info();
    case PerfDataProto::PerfEvent::kCommEvent:
      return &event.comm_event().sample_info();
    case PerfDataProto::PerfEvent::kForkEvent:
      return &event.fork_event().sample_info();
    default:
      return nullptr;
  }
}
}  // namespace quipper
#endif
