#ifndef VERIF_HARNESS_PERFGEN_H_
#define VERIF_HARNESS_PERFGEN_H_
// Builds recordings (stand-in perf.data files) from script JSON.
#include <fstream>
#include <string>

#include "perf_data.pb.h"
#include "vh.h"

namespace vh {
inline void SaveProto(const quipper::PerfDataProto& p, const std::string& f) {
  std::string s;
  p.SerializeToString(&s);
  std::ofstream(f, std::ios::binary) << s;
}
}  // namespace vh
#endif
