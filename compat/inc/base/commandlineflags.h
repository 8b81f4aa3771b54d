#ifndef VERIF_COMPAT_BASE_COMMANDLINEFLAGS_H_
#define VERIF_COMPAT_BASE_COMMANDLINEFLAGS_H_
// Stand-in for perf_data_converter's header of that name.
#include "third_party/abseil/absl/flags/flag.h"
#endif
