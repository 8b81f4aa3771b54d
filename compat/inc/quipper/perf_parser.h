#ifndef VERIF_COMPAT_QUIPPER_PERF_PARSER_H_
#define VERIF_COMPAT_QUIPPER_PERF_PARSER_H_
// Stand-in for quipper's PerfParser: maps sample and branch-stack addresses to
// (dso, offset) through the mmap events seen so far for the sample's pid.
#include <cstdint>
#include <list>
#include <map>
#include <string>
#include <vector>

#include "perf_data.pb.h"
#include "quipper/perf_reader.h"

namespace quipper {
struct DSOInfo {
  std::string name;
  std::string build_id;
};
struct ParsedEvent {
  struct DSOAndOffset {
    const DSOInfo* dso_info_ = nullptr;
    uint64_t offset_ = 0;
    uint64_t offset() const { return offset_; }
    const std::string dso_name() const {
      return dso_info_ ? dso_info_->name : std::string();
    }
  };
  struct BranchEntry {
    bool predicted = false;
    uint32_t spec = 0;
    DSOAndOffset from;
    DSOAndOffset to;
  };
  PerfDataProto_PerfEvent* event_ptr = nullptr;
  DSOAndOffset dso_and_offset;
  std::vector<BranchEntry> branch_stack;
};

class PerfParser {
 public:
  explicit PerfParser(PerfReader* reader) : reader_(reader) {}
  bool ParseRawEvents() {
    std::vector<PerfDataProto::MMapEvent> maps;
    for (auto& e : *reader_->mutable_events()) {
      ParsedEvent pe;
      pe.event_ptr = &e;
      if (e.has_mmap_event()) {
        maps.push_back(e.mmap_event());
      } else if (e.has_sample_event()) {
        const auto& s = e.sample_event();
        pe.dso_and_offset = Map(maps, s.pid(), s.ip());
        for (const auto& b : s.branch_stack()) {
          ParsedEvent::BranchEntry be;
          be.spec = b.spec();
          be.from = Map(maps, s.pid(), b.from_ip());
          be.to = Map(maps, s.pid(), b.to_ip());
          pe.branch_stack.push_back(be);
        }
      }
      events_.push_back(pe);
    }
    return true;
  }
  const std::vector<ParsedEvent>& parsed_events() const { return events_; }

 private:
  ParsedEvent::DSOAndOffset Map(
      const std::vector<PerfDataProto::MMapEvent>& maps, uint32_t pid,
      uint64_t ip) {
    ParsedEvent::DSOAndOffset r;
    for (auto it = maps.rbegin(); it != maps.rend(); ++it) {
      if (it->pid() != pid && it->pid() != 0xffffffffu) continue;
      if (ip < it->start() || ip - it->start() >= it->len()) continue;
      r.dso_info_ = Dso(it->filename());
      r.offset_ = ip - it->start() + it->pgoff();
      return r;
    }
    r.offset_ = ip;
    return r;
  }
  const DSOInfo* Dso(const std::string& name) {
    auto it = dso_.find(name);
    if (it == dso_.end()) {
      infos_.push_back({name, ""});
      it = dso_.emplace(name, &infos_.back()).first;
    }
    return it->second;
  }
  PerfReader* reader_;
  std::vector<ParsedEvent> events_;
  std::list<DSOInfo> infos_;
  std::map<std::string, const DSOInfo*> dso_;
};
}  // namespace quipper
#endif
