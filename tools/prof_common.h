#include <cstdio>
#include <cstdlib>
#include <string>
#include "symbol_map.h"
#include "profile_reader.h"
#include "profile_writer.h"
using namespace devtools_crosstool_autofdo;
#define NEED(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
inline SourceInfo At(const char* fn, int line, int disc = 0) { return SourceInfo(fn, "", "", 10, 10 + line, disc); }
