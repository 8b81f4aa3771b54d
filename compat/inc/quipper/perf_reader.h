#ifndef VERIF_COMPAT_QUIPPER_PERF_READER_H_
#define VERIF_COMPAT_QUIPPER_PERF_READER_H_
// Stand-in for quipper's PerfReader. A "perf.data" file is a serialized
// PerfDataProto. What is and is not skipped does not matter to the callers
// (skipping is a memory optimisation), except that the sample callback sees
// every SAMPLE event in file order.
#include <cstdint>
#include <fstream>
#include <functional>
#include <iterator>
#include <map>
#include <set>
#include <string>

#include "perf_data.pb.h"

namespace quipper {
enum PerfEventType {
  PERF_RECORD_MMAP = 1,
  PERF_RECORD_COMM = 3,
  PERF_RECORD_FORK = 7,
  PERF_RECORD_SAMPLE = 9,
  PERF_RECORD_MMAP2 = 10,
  PERF_RECORD_AUXTRACE = 71,
};
enum { PERF_BR_SPEC_NA = 0, PERF_BR_SPEC_WRONG_PATH = 1 };

class PerfReader {
 public:
  void SetEventTypesToSkipWhenSerializing(std::set<uint32_t> types) {
    skip_ = std::move(types);
  }
  template <typename F>
  void SetSampleCallback(F f) {
    callback_ = [f](const PerfDataProto::SampleEvent& e) { f(e); };
  }
  bool ReadFromPointer(const char* data, size_t size) {
    PerfDataProto all;
    if (!all.ParseFromArray(data, size) || all.broken()) return false;
    for (const auto& e : all.events()) {
      if (e.has_sample_event() && callback_) callback_(e.sample_event());
      uint32_t type = 0;
      if (e.has_mmap_event()) type = PERF_RECORD_MMAP;
      if (e.has_sample_event()) type = PERF_RECORD_SAMPLE;
      if (e.has_comm_event()) type = PERF_RECORD_COMM;
      if (e.has_fork_event()) type = PERF_RECORD_FORK;
      if (e.has_auxtrace_event()) type = PERF_RECORD_AUXTRACE;
      (void)type;
      auto* ne = proto_.add_events();
      *ne = e;
      ne->mutable_header()->set_type(type);
    }
    *proto_.mutable_build_ids() = all.build_ids();
    return true;
  }
  bool ReadFile(const std::string& name) {
    std::ifstream in(name, std::ios::binary);
    if (!in) return false;
    std::string s((std::istreambuf_iterator<char>(in)),
                  std::istreambuf_iterator<char>());
    return ReadFromPointer(s.data(), s.size());
  }
  const google::protobuf::RepeatedPtrField<PerfDataProto::PerfEvent>& events()
      const {
    return proto_.events();
  }
  google::protobuf::RepeatedPtrField<PerfDataProto::PerfEvent>*
  mutable_events() {
    return proto_.mutable_events();
  }
  const google::protobuf::RepeatedPtrField<PerfDataProto::PerfBuildID>&
  build_ids() const {
    return proto_.build_ids();
  }
  void GetFilenamesAsSet(std::set<std::string>* out) const {
    for (const auto& e : proto_.events())
      if (e.has_mmap_event()) out->insert(e.mmap_event().filename());
  }
  void GetFilenamesToBuildIDs(std::map<std::string, std::string>* out) const {
    static const char* hex = "0123456789abcdef";
    for (const auto& b : proto_.build_ids()) {
      std::string s;
      for (unsigned char c : b.build_id_hash()) {
        s += hex[c >> 4];
        s += hex[c & 15];
      }
      (*out)[b.filename()] = s;
    }
  }

 private:
  PerfDataProto proto_;
  std::set<uint32_t> skip_;
  std::function<void(const PerfDataProto::SampleEvent&)> callback_;
};
}  // namespace quipper
#endif
