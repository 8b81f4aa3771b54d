#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, then run it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe_at, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe_at, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("S01", "Merging raw sample files adds counts and the text format round-trips",
  "After any sequence of merges and appends of raw sample profiles, the count of every address, every executed range and every branch equals the sum of what the inputs recorded for it, and keys no input had do not appear. Writing a raw profile as text and reading it back yields the same three count tables for 64-bit addresses and counts. Total sample count is the sum over range counts when there are ranges and over address counts otherwise.",
  ["inputs", "histories"], "every multiset of raw profiles, every order and interleaving of set/append/merge/write/read operations, all 64-bit addresses and counts",
  "sample_reader_test reads four fixed files once each; it never merges two profiles, never writes one back and never uses a count or address above 32 bits.",
  ["sample_reader.cc", "sample_reader.h", "sample_merger.cc"],
  [("merge of the three tables", "SampleReader::Merge"), ("text parser", "TextSampleReaderWriter::Append"), ("text printer", "TextSampleReaderWriter::Write")],
  ["address/range/branch count tables after each call", "the text file written"],
  [("count tables", "counts per address, per range, per branch", "SampleReader")])

prop("S02", "An LBR stack yields exactly its branches' ranges and the newest branch",
  "For every hardware sample whose addresses belong to the profiled binary, its instruction address is counted once and dated with its first sample's time, the newest non-speculative branch is counted once as a taken branch, and for each pair of consecutive branches one straight-line range from the older branch's target to the newer branch's source is counted. Ranges that run backwards or exceed one megabyte, wrong-path entries, and the known duplicate of the newest entry whose stride exceeds the configured limit contribute nothing: neither a range nor, for the entry that ends a rejected range, a branch. Samples of other binaries contribute nothing.",
  ["inputs", "configurations"], "every branch stack (length, address order, duplicates, speculation marks), every mix of binaries and processes in one recording, with and without a build id",
  "sample_reader_test compares the sizes of the tables for fixed recordings; it does not check which ranges a stack yields, and has no stack with wrong-path entries, reversed ranges or mixed binaries.",
  ["sample_reader.cc", "sample_reader.h"],
  [("branch stack walk", "PerfDataSampleReader::Append"), ("binary matching", "PerfDataSampleReader::MatchBinary"), ("build-id lookup", "PerfDataSampleReader::GetFileNameFromBuildID")],
  ["address/range/branch count tables after reading a recording"])

prop("S03", "Branch frequencies convert to ranges that carry exactly the flow that enters",
  "Converting sampled taken and not-taken branch frequencies to execution ranges covers, from each sampled branch target on, straight-line code up to and including the next branch instruction, with a weight equal to the number of arrivals at the range start (branches to it plus fall-throughs of the not-taken branch just before it). A range never crosses a branch, a branch target, the end of the binary's code, or the address 4096 bytes past the last sampled target; ranges do not overlap, and taken-branch counts are carried over unchanged.",
  ["inputs"], "every set of taken and not-taken branch counts over every placement of branch instructions, including addresses the branch oracle cannot classify",
  "branch_frequencies_autofdo_sample_test fixes seven small examples; overlapping targets, chains of not-taken branches, zero weights and unreadable addresses are sampled once each at most.",
  ["branch_frequencies_autofdo_sample.cc", "branch_frequencies_autofdo_sample.h", "branch_frequencies.h"],
  [("range construction", "ConvertBranchFrequenciesToAutofdoRangeSample")],
  ["the range and branch counts returned"])

prop("S04", "A hardware trace record is attributed to the process its thread was in then",
  "Given the fork, exec and sample history of a recording, a trace record with a valid thread context is attributed to the process the thread most recently belonged to at the record's (converted) time, and to the thread's own number when nothing is known about it at that time. A record without a context is attributed only when the whole recording has a single process, and is an error otherwise.",
  ["histories"], "every sequence of fork/exec/mmap/sample events in time order, every record time and context, every clock conversion",
  "No test covers process attribution over a history in which a thread id is reused by a different process or a record precedes the first event.",
  ["spe_tid_pid_provider.cc", "spe_tid_pid_provider.h", "spe_pid_provider.h"],
  [("history construction", "SpeTidPidProvider::SpeTidPidProvider"), ("lookup", "SpeTidPidProvider::GetPid"), ("clock conversion", "SpeTidPidProvider::SpeTimestampToPerfTimestamp")],
  ["the process returned for each record"])

prop("S05", "Runtime addresses translate through their mapping, or are dropped",
  "Loading a recording selects exactly the mappings of the profiled binary (by build id, else by the given name), one entry per distinct mapping and process, and refuses a recording in which a process has two different overlapping mappings. A runtime address translates to the binary address of the loadable segment its mapping and file offset designate, and to 'invalid' exactly when no mapping of that process or no segment contains it. Aggregating branch stacks or trace records counts every branch between translated addresses once and every fall-through between consecutive stack entries once, and ignores other processes; a branch end that does not translate is recorded as 'invalid', not dropped.",
  ["inputs", "histories"], "every set of mappings (several per process, page offsets, kernel), every segment layout, fixed-position and position-independent binaries, every branch stack",
  "perfdata_reader_test translates a handful of addresses of one binary; boundaries of mappings and segments, several segments and offset rounding are not enumerated.",
  ["perfdata_reader.cc", "perfdata_reader.h"],
  [("mapping selection", "SelectMMaps"), ("translation", "PerfDataReader::RuntimeAddressToBinaryAddress"), ("branch stack aggregation", "PerfDataReader::AggregateLBR"), ("trace aggregation", "PerfDataReader::AggregateSpe")],
  ["translated addresses", "selected mappings or the error", "aggregated counters"])

prop("P01", "Each sample is attributed once to its full inline stack",
  "Adding a sample count for an inline stack adds to the total of every function instance on the stack exactly once and sets the count of the innermost source position to the sum or (PERFDATA mode) the maximum of what was added, as the caller chose; instruction counts and indirect-call targets accumulate at that position. No other function, position or target changes, and entry counts change only through explicit entry-count calls.",
  ["inputs", "histories"], "every sequence of source-count, entry-count and call-target additions over every shape of inline stack, including repeated positions and shared prefixes",
  "symbol_map_test adds a few fixed stacks; interleavings of sum and maximum, deep shared prefixes and counts beyond 32 bits are not explored.",
  ["symbol_map.cc", "symbol_map.h", "source_info.h"],
  [("stack walk", "SymbolMap::AddSourceCount / TraverseInlineStack"), ("target accumulation", "SymbolMap::AddIndirectCallTarget"), ("per-position record", "ProfileInfo")],
  ["the profile tree after each call"])

prop("P02", "Merging profiles adds counts and does not depend on the order",
  "Reading several AutoFDO profiles into one set of functions yields, for every function, inlined instance, source position and call target, the sum of the counts in the inputs, the same for every order of the inputs; merging a profile with an empty one changes no count. This holds for GCC-format and LLVM-format inputs and for 64-bit counts.",
  ["inputs", "histories"], "every multiset of profiles with overlapping functions, inlined call sites, positions and targets, every merge order",
  "The tests read single profiles; no test merges two profiles with overlapping nested call sites or call targets.",
  ["profile_reader.cc", "llvm_profile_reader.cc", "profile_merger.cc", "symbol_map.cc", "symbol_map.h"],
  [("GCC profile reader", "AutoFDOProfileReader::ReadFromFile"), ("LLVM profile reader", "LLVMProfileReader::ReadFromFile"), ("record merge", "Symbol::Merge, ProfileInfo +=")],
  ["the profile tree after reading", "the merged profile file"])

prop("P03", "A GCC-format profile reads back as it was written",
  "Writing any set of function profiles in the GCC AutoFDO format and reading the file back yields the same functions, inlined instances, positions, counts, entry counts and call targets, for every supported format version, and a version-1 file declares its true length, section and string counts. Position encodings distinguish every line offset and discriminator in the format's range.",
  ["inputs", "configurations"], "every profile tree with names, offsets, discriminators and 64-bit counts in range; format versions 1 to 3 options",
  "There is no unit test that writes and re-reads a GCC-format profile.",
  ["profile_writer.cc", "profile_writer.h", "profile_reader.cc", "gcov.cc", "source_info.h"],
  [("writer", "AutoFDOProfileWriter::WriteToFile"), ("string table", "StringTableUpdater"), ("reader", "AutoFDOProfileReader::ReadFromFile")],
  ["the file's bytes", "the profile tree read back"])

prop("P04", "An LLVM-format profile carries exactly the function counts it was built from",
  "Converting function profiles to LLVM sample profiles keeps every function's and inlined instance's total, entry and body counts and call targets, writes inlined instances at their call position, and omits exactly the functions below the output thresholds and no others. Reading the written profile back in text, binary or extensible binary form yields the same counts.",
  ["inputs", "configurations"], "every profile tree and every output format and threshold",
  "llvm_profile_writer_test compares two golden files; nested call sites, thresholds, multiple targets at one position and round trips of arbitrary trees are not explored.",
  ["llvm_profile_writer.cc", "llvm_profile_writer.h", "llvm_profile_reader.cc", "llvm_profile_reader.h"],
  [("tree conversion", "LLVMProfileBuilder"), ("writer", "LLVMProfileWriter::WriteToFile"), ("reader", "LLVMProfileReader::ReadFromFunctionSamples")],
  ["the converted profile", "the written file read back"])

prop("P05", "Removing compiler suffixes moves counts, never loses or invents them",
  "Merging the compiler-generated variants of a function into its base name yields one function per base name whose counts at every position, inlined instance and target are the sums over its variants, and leaves the overall count sum unchanged. Names without such a suffix are untouched, and the result does not depend on the order of the variants.",
  ["inputs"], "every set of function names with any combination of known and unknown suffixes and any overlap of their profiles",
  "symbol_map_test elides suffixes of a fixed list of names and checks one sum.",
  ["symbol_map.cc", "symbol_map.h"],
  [("suffix table", "SymbolMap::GetOriginalName / suffix_elision_policy"), ("merge", "SymbolMap::ElideSuffixesAndMerge")],
  ["the set of functions and their trees before and after"])

prop("P06", "Inclusive call-graph counts cover every callee exactly once, cycles included",
  "The inclusive count of a function is its own count plus, for every call from it, the called function's inclusive count scaled by that call's share of the callee's entries, with the functions of one call cycle collapsed to a unit whose sum all its members share; the computation terminates for every call graph. Inclusive counts are never below exclusive counts and do not wrap at 32 bits.",
  ["inputs"], "every call graph, including self calls, nested and overlapping cycles, and call targets without a profile",
  "symbol_map_test has one graph with a single cycle.",
  ["symbol_map.cc", "symbol_map.h"],
  [("strongly connected components", "CallGraph / StrongConnect"), ("inclusive sums", "ComputeTotalCountIncl")],
  ["inclusive count of every function"])

prop("P07", "Trimming and flattening keep hot code and conserve or scale counts",
  "Limiting call sites per position keeps the hottest inlined instances and removes exactly the others with their counts; selective flattening keeps functions above the threshold as they are and leaves no inlined instance in any other; building a hybrid profile keeps only inlined instances above the threshold; limiting nesting (a function itself is level 1) leaves no deeper inlined instance; flattening merges inlined instances into stand-alone functions, position by position; scaling by a ratio multiplies every count of the function and nothing else. None of these changes the profile of a function it was not asked to change.",
  ["inputs", "configurations"], "every profile tree, threshold and ratio",
  "symbol_map_test checks trimming on one fixed tree.",
  ["symbol_map.cc", "symbol_map.h"],
  [("trim", "SymbolMap::Prune/throttling"), ("flatten", "Symbol::FlattenCallsite"), ("scale", "Symbol::UpdateWithRatio")],
  ["the profile tree before and after"])

prop("P08", "The working-set summary states the true minimum hot set for each percentile",
  "For every profile, the working-set table gives for each percentile the smallest number of hottest instructions whose counts reach that share of the total, and the smallest count among them, with both monotone across percentiles. Hot and cold thresholds derived from it classify a count as hot exactly when it is inside the stated share.",
  ["inputs"], "every multiset of counts and instruction sizes, including zero and equal counts",
  "summary_calculation_test checks two fixed profiles.",
  ["profile_writer.cc", "symbol_map.cc", "symbol_map.h"],
  [("histogram", "SymbolMap::ComputeWorkingSets"), ("summary", "ProfileSummaryComputer")],
  ["the working-set table", "count thresholds"])

prop("P09", "Profile overlap is symmetric, bounded and exact for equal profiles",
  "The similarity of two profiles is symmetric, lies between zero and one, is one for a profile and itself or a scaled copy of itself, and is zero when they share no function. The per-position similarity is the sum over positions of the smaller normalised share.",
  ["inputs"], "every pair of profiles",
  "No unit test exercises the overlap computation.",
  ["symbol_map.cc", "symbol_map.h", "profile_diff.cc"],
  [("overlap", "SymbolMap::Overlap")],
  ["the similarity returned"])

prop("P10", "Samples of a run become exactly the counts of the code they hit",
  "Turning the samples of a run into a profile keeps every function of the binary whose samples, over all its variants together, reach the threshold, and no other. In a kept function every instruction with a known source position adds its executions - the ranges that cover it, or its own samples when there are none, times its duplication factor - to each position of its inline chain's innermost function; positions hold the largest count of their instructions, inlined code is counted at its call chain, and function totals are sums of those counts. Branches into a function's start are its entries and call targets of the branch's position. Each function keeps the time of its first execution, functions sharing a name are each counted, and in cache-miss mode the misses of a position are recorded there and nowhere else.",
  ["inputs", "programs", "configurations"], "every set of ranges, branches and addresses over every binary layout, inline structure, suffix policy and position encoding",
  "No unit test computes a profile from samples.",
  ["profile.cc", "profile.h", "symbol_map.cc", "instruction_map.cc", "profile_creator.cc"],
  [("sample attribution", "Profile::ComputeProfile / ProcessPerFunctionProfile"), ("instructions", "InstructionMap::BuildPerFunctionInstructionMap"), ("misses", "SymbolMap::AddIndirectCallTarget / EnsureEntryInFuncForSymbol")],
  ["every count, target, total, entry and timestamp of the profile computed"])

prop("T01", "The merging tool writes the merged, shaped profile or nothing",
  "Running profile_merger on profile files leaves a file that holds, for every function whose merged total exceeds the threshold (the larger of 10 and the given share of the total), the sum of what the inputs hold for it, after inline instances nested deeper than the given level were made functions, functions matching the given pattern removed, inline instances per location and targets per call cut to the hottest, and functions special to one program stripped, kept once or made cold when asked. The file has the requested format, section flags and, in the extensible format when asked, the union of the inputs' symbol lists; in the GCC format the requested version, merged working sets and file names. The order of the inputs does not matter to the counts. An unreadable input, an unknown format, or an option the format cannot express is refused with a non-zero status.",
  ["inputs", "configurations"], "every set of input files in every format, every order, every combination of flags",
  "No test runs the tool.",
  ["profile_merger.cc", "llvm_profile_reader.cc", "llvm_profile_writer.cc", "profile_reader.cc", "profile_writer.cc", "symbol_map.cc"],
  [("tool", "profile_merger main"), ("option checks", "verifyProperFlags"), ("shaping", "SymbolMap::FlattenNestedInlineCallsites / RemoveSymsMatchingRegex / throttleInlineInstancesAtSameLocation / TrimCallTargets")],
  ["exit status", "the file written, read back"])

prop("T02", "The creation tools write the profile of the recording for the binary",
  "Running create_llvm_prof or create_gcov on a binary and a profile (a sample file, a recording of branches, or a file of prefetch hints) leaves a file that holds, for every function of the binary with enough samples, the counts its instructions' samples give to the source positions and inline instances the debug information names for them, the targets recorded for its calls, its entry count and, for the GCC format, the working sets; functions known by suffixed names are merged with those they were cloned from as the options say, and the extensible format has the symbol list when asked. Prefetch hints appear as call targets named after the hint's type and its position among the hints for the address. The file has the requested format. An unreadable binary or profile, an unknown kind of profile, an unknown format or missing or contradictory names of the output are refused with a non-zero status.",
  ["inputs", "configurations"], "every binary, every recording, sample file or file of hints, every combination of flags",
  "No test runs the tools.",
  ["create_llvm_prof.cc", "create_gcov.cc", "profile_creator.cc", "profile.cc", "symbol_map.cc", "addr2line.cc"],
  [("tools", "create_llvm_prof main / create_gcov main"), ("creation", "ProfileCreator::CreateProfile / ComputeProfile / ConvertPrefetchHints"), ("attribution", "Profile::ProcessPerFunctionProfile")],
  ["exit status", "the file written, read back"])

prop("T03", "The printing and comparing tools show what the files hold",
  "dump_gcov prints every function with samples, by decreasing total and then by name, with its total, head count and time, each position with its count and its targets from the most called on, and each inlined call with its total and, below it, its body. profile_diff prints the overlap of two profiles, and when asked each function whose total reaches the cut-off share of the hottest function of its profile, once, with its shares in both profiles, by decreasing total. Both accept their options on the command line.",
  ["inputs", "configurations"], "every profile and pair of profiles in every format, every cut-off",
  "No test runs the tools.",
  ["dump_gcov.cc", "profile_diff.cc", "symbol_map.cc", "profile_reader.cc", "llvm_profile_reader.cc"],
  [("printing", "SymbolMap::Dump / Symbol::Dump / Symbol::DumpBody"), ("comparison", "SymbolMap::DumpFuncLevelProfileCompare / SymbolMap::Overlap")],
  ["standard output", "exit status"])

prop("G01", "Profile files read back exactly what was written",
  "Words, 64-bit counters and strings of any length written to a profile file (gcov.h) are in it, in order and least significant byte first, once the file is closed: a string after its length, in bytes including the closing zero byte from format version 2 on and in zero-padded words before. Reading the file in the same order returns the same values; a read the rest of the file cannot satisfy takes what is left and returns 0 or no string, never stale data, and so does every read after it. Opening a file that cannot be opened reports failure, closing one that could not be written in full reports an error, and one file's content or errors never show in the next one opened.",
  ["inputs", "histories"], "every sequence of opens, writes, reads and closes over every value, string length and buffer boundary, and every truncation of a file",
  "No unit test covers the file layer; the tools only exercise short files that fit one buffer.",
  ["gcov.cc", "gcov.h"],
  [("buffered writer", "gcov_write_unsigned / gcov_write_counter / gcov_write_string / gcov_close"), ("buffered reader", "gcov_read_unsigned / gcov_read_counter / gcov_read_string")],
  ["values returned by each read", "result of each open and close", "the file's bytes"],
  [("gcov_var", "open file, buffer window, mode and error", "gcov.cc")])

prop("D01", "An address resolves to its exact inline chain of source positions",
  "For every instruction address of a binary with well-formed debug information, symbolisation returns the chain from the innermost inlined function to the containing function, each with the function's linkage name (or plain name where there is none), its file and directory, the line of the position in it, the discriminator and, where the debug information gives one, the function's start line; all versions and encodings of the same debug information, kept in the binary or split off into .dwo files, give the same answers. An address whose line is unknown yields an empty chain or the same chain with line 0, one outside every function an empty chain or one anonymous frame, and one without debug information an empty chain. The LLVM-based reader gives directories as the line table has them, the repository's own joins relative ones to the unit's. The answer for an address depends only on the debug information, not on the set or order of addresses asked.",
  ["inputs", "programs", "histories"], "every nesting of inlined functions and address ranges, every line table, for the DWARF versions and encodings supported, every order of queries",
  "addr2line_test looks up a few addresses in one binary; nested inlining, range lists, gaps between functions and sampled subsets of addresses are not enumerated.",
  ["addr2line.cc", "legacy_addr2line.cc", "util/symbolize/dwarf2reader.cc", "util/symbolize/addr2line_inlinestack.cc", "util/symbolize/functioninfo.cc", "util/symbolize/dwarf3ranges.cc", "util/symbolize/nonoverlapping_range_map.h", "util/symbolize/bytereader.cc", "util/symbolize/elf_reader.cc"],
  [("LLVM-based symboliser", "LLVMAddr2line::GetInlineStack"), ("own DWARF reader", "Google3Addr2line::GetInlineStack, InlineStackHandler, LineInfo"), ("address to subprogram map", "SubprogramsByAddress / NonOverlappingRangeMap")],
  ["the inline chain returned for each address"])

prop("D02", "The symbol table maps every address to the one function that contains it",
  "For a binary's symbol table, an address inside a function's extent resolves to that function's name and start, an address outside every function resolves to none, aliases of one address are recorded under one chosen name, and file offsets convert to binary addresses and back consistently for every loadable executable segment.",
  ["inputs", "programs"], "every layout of functions, gaps, zero-sized symbols, aliases and loadable segments",
  "symbol_map_test checks a few symbols of one binary and one segment layout.",
  ["symbol_map.cc", "symbol_map.h", "util/symbolize/elf_reader.cc", "instruction_map.cc"],
  [("symbol table scan", "SymbolMap::BuildSymbolMap / ElfReader::VisitSymbols"), ("lookup", "SymbolMap::GetSymbolInfoByAddr"), ("offset conversion", "SymbolMap::GetFileOffsetFromStaticVaddr")],
  ["name, start and size returned for each address", "converted addresses"])

prop("R01", "A binary address maps to the basic block that contains it",
  "Looking up a binary address returns the basic block whose extent contains it, honouring whether the address is the source or the target of a branch and a call returning to a block's end, and nothing for addresses outside every selected function. Two blocks can fall through exactly when they are the same or are in one function, in order, and every block from the first to just before the second falls through. The functions selected are those that have a symbol and, when hot addresses are given, contain one of them; non-text functions are left out when asked, a symbol name shared by several functions removes them (all but one for identical internal-linkage clones), and each selected function keeps all its symbol names and its output section.",
  ["inputs", "programs"], "every block layout (empty blocks, several ranges, gaps, call ends), every address, every branch trace",
  "llvm_propeller_binary_address_mapper_test looks up addresses of fixed binaries.",
  ["llvm_propeller_binary_address_mapper.cc", "llvm_propeller_binary_address_mapper.h", "bb_handle.h"],
  [("lookup", "BinaryAddressMapper::FindBbHandleIndexUsingBinaryAddress"), ("fall-through test", "BinaryAddressMapper::CanFallThrough"), ("selection", "BuildBinaryAddressMapper")],
  ["the block returned for each address", "the selected functions, their names, sections and blocks"])

prop("R02", "Control-flow graphs account for every sampled branch exactly once",
  "Building control-flow graphs from aggregated branches and fall-throughs yields for each pair of blocks an edge whose weight is the sum of the counters that map to it, of the right kind (call, return, jump or fall-through), registered once at each end; a fall-through range adds its count to every edge along it. Counters that map to no block are dropped, and profiles whose branches mostly land inside blocks, or produce almost no edge, are rejected. Executions per block are derived from its edges without counting calls and returns twice. A graph knows the module its function was compiled in where the debug information says so.",
  ["inputs"], "every block layout, every multiset of branch and fall-through counters, including returns to a block start and addresses beyond 4 GiB",
  "llvm_propeller_program_cfg_builder_test compares a few fixed graphs.",
  ["llvm_propeller_program_cfg_builder.cc", "llvm_propeller_program_cfg.cc", "llvm_propeller_cfg.cc", "llvm_propeller_cfg.h"],
  [("edge creation", "ProgramCfgBuilder::CreateEdges / InternalCreateEdge"), ("fall-throughs", "ProgramCfgBuilder::CreateFallthroughs")],
  ["nodes and edges of every graph", "statistics"])

prop("R03", "A code layout places every hot block once, entries first, with unique ranks",
  "For every program, the computed layout contains each block that was executed exactly once, together with function entries, landing pads of functions with a hot one, and all remaining blocks when functions are not split, and no other block. Without inter-function reordering each function is one cluster starting with its entry; otherwise a new cluster begins where the function changes or an entry is reached. Cluster ranks and cold ranks are each a gap-free numbering; functions are ordered by call-chain clustering (or by their original order when it is off); blocks joined by mutually exclusive jumps stay adjacent. The layout is the same on every run with the same input.",
  ["inputs", "configurations"], "every set of control-flow graphs with any edge weights and block sizes, every combination of layout options",
  "llvm_propeller_code_layout_test checks the layout of about a dozen stored graphs.",
  ["llvm_propeller_code_layout.cc", "llvm_propeller_node_chain_builder.cc", "llvm_propeller_chain_cluster_builder.cc", "llvm_propeller_node_chain.cc", "llvm_propeller_node_chain_assembly.cc", "llvm_propeller_function_cluster_info.h"],
  [("layout", "CodeLayout::OrderAll"), ("chain merging", "NodeChainBuilder::BuildChains"), ("chain clustering", "ChainClusterBuilder::BuildClusters")],
  ["clusters, block order and ranks of every function"])

prop("R04", "The layout score is exact and optimisation never makes it worse",
  "The score reported for a layout is the sum over edges of the edge's weight times the distance-dependent factor (fall-through, short forward, short backward, otherwise nothing) at the block positions of that layout, for the original and for the optimised order. Merging chains keeps each chain's stored size, frequency and score equal to those of its blocks, and never lowers the total.",
  ["inputs", "configurations"], "every graph, block size, weight and score parameters; every sequence of merges",
  "The tests fix the score of a few graphs with default parameters.",
  ["llvm_propeller_code_layout.cc", "llvm_propeller_code_layout_scorer.cc", "llvm_propeller_node_chain.cc", "llvm_propeller_node_chain_assembly.cc", "llvm_propeller_node_chain_builder.cc"],
  [("edge score", "PropellerCodeLayoutScorer::GetEdgeScore"), ("chain score", "NodeChain::score / NodeChainAssembly::ComputeScore")],
  ["reported scores", "chain sizes, frequencies and scores after each merge"])

prop("R05", "The emitted Propeller files describe exactly the computed layout",
  "The compiler directives list every function of the layout once under all its names, with its clusters in order and every block of each cluster in order; the linker's symbol order lists one symbol per cluster by global rank, followed by one cold symbol per function that has blocks outside its clusters, each naming the section the compiler will emit for it. Both text encodings describe the same layout. Layout scores written as comments, and the control-flow graphs dumped on request, are those of the same layout: every block and edge once with its weight, and blocks placed next to each other marked so.",
  ["inputs", "configurations"], "every layout, alias set, encoding version, section grouping and verbosity option",
  "llvm_propeller_profile_generator_test compares golden files of two binaries.",
  ["llvm_propeller_profile_writer.cc", "llvm_propeller_profile_writer.h"],
  [("writer", "PropellerProfileWriter::Write")],
  ["bytes of the two files, parsed back"])

prop("R06", "Control-flow graphs survive serialisation unchanged",
  "Writing control-flow graphs to their message form and reading them back reproduces every function name, section, block, size, flag, and every edge inside a function with its kind and weight. Cloning a path appends copies of its blocks with rising clone numbers and leaves the original blocks, edges and executions as they were. Hot-block thresholds and hot join blocks are those the executions define.",
  ["inputs"], "every set of graphs with intra- and inter-function edges, landing pads, module names and cloned paths",
  "llvm_propeller_program_cfg_proto_builder_test serialises one fixed graph.",
  ["llvm_propeller_program_cfg_proto_builder.cc", "llvm_propeller_cfg.cc", "llvm_propeller_program_cfg.cc", "llvm_propeller_cfg.h"],
  [("serialiser", "ProgramCfgProtoBuilder::AddCfgs"), ("thresholds", "ProgramCfg::GetNodeFrequencyThreshold / GetHotJoinNodes"), ("cloning", "CloneCfg / ControlFlowGraph::ClonePath")],
  ["graphs read back", "the original and cloned graph"])

prop("R07", "Aggregated branches conserve the counts of what was sampled",
  "Converting raw branch counters to aggregated branches keeps every taken-branch count, and inferred fall-throughs carry, for each stretch of straight-line code, exactly the flow the recorded branches imply; every address reported as executed was on a recorded branch or fall-through. The same input gives the same result, and input is fetched and converted at most once no matter how often results are asked for.",
  ["inputs", "histories"], "every multiset of branch and fall-through counters, every order of result queries",
  "lbr_branch_aggregator_test and the perf aggregator tests use a few fixed counters.",
  ["branch_aggregation.cc", "branch_aggregation.h", "lbr_branch_aggregator.cc", "frequencies_branch_aggregator.cc", "lazy_evaluator.h", "lbr_aggregation.h", "branch_frequencies.h"],
  [("aggregation", "LbrBranchAggregator / FrequenciesBranchAggregator"), ("once-only evaluation", "LazyEvaluator")],
  ["branch and fall-through counters returned", "number of times the source is read", "statistics"])

prop("R08", "Progress reports never exceed completion and consumers are stopped exactly once",
  "Reported progress is always between 0 and 100, is 100 exactly when the work is marked done or there is nothing to do, a group is done only when all its parts are, and its progress counts its parts in order: the finished ones at the front in full and the next one by its own progress, by weight. Every registered consumer is started once with the work it reports on and stopped once for each start, whichever threads register, start and stop.",
  ["histories", "schedules"], "every sequence of progress updates and part additions, every interleaving of registration, start and stop",
  "No unit test covers progress reporting or the consumer registry.",
  ["status_provider.cc", "status_provider.h", "status_consumer_registry.cc", "status_consumer_registry.h"],
  [("weighted progress", "MultiStatusProvider"), ("registry", "StatusConsumerRegistry")],
  ["progress and done state after each call", "start/stop calls each consumer receives"])

prop("R09", "Every input profile file is delivered exactly once, in order",
  "Iterating over a list of recordings yields each file's exact content once, in list order, labelled with its position and name, then reports the end forever. A file that cannot be read is an error each time it is asked for, until it can be, and neither loses nor reorders any file; asking for everything at once delivers all that is left, or nothing when one of them cannot be read.",
  ["histories", "fault_sequences"], "every list of files, every pattern of unreadable files, every number of calls after the end",
  "llvm_propeller_file_perf_data_provider_test reads two good files and one missing file once.",
  ["llvm_propeller_file_perf_data_provider.cc", "llvm_propeller_file_perf_data_provider.h", "llvm_propeller_perf_data_provider.h"],
  [("iteration", "GenericFilePerfDataProvider::GetNext")],
  ["content, label or error of each call"])

prop("R10", "The profile symbol list holds exactly the functions the size cut-off admits",
  "The list of symbols kept beside a profile contains, under its name without elided suffixes, every function of the binary that the profile does not name and that is at least as large as the cut-off the requested coverage of code size implies, and no other; full coverage keeps all such functions, zero coverage or one below the largest function's share keeps none, and a larger coverage never removes a function. Nothing a profile names is on its list.",
  ["inputs", "configurations"], "every multiset of function sizes, every coverage between 0 and 1",
  "profile_symbol_list_test uses one list of sizes and a few coverages.",
  ["profile_symbol_list.cc", "profile_symbol_list.h", "symbol_map.cc"],
  [("cut-off", "fillProfileSymbolList"), ("functions not in the profile", "SymbolMap::collectNamesForProfSymList")],
  ["members of the list", "names and sizes offered to it"])

prop("R11", "Statistics of independent runs combine by addition",
  "Combining two sets of run statistics yields, for every counter, the sum (and for keyed counters the key-wise sum), whatever the order of combination, and derived totals are computed from the combined counters. Combining with empty statistics changes nothing.",
  ["inputs", "histories"], "every pair and sequence of statistics",
  "llvm_propeller_statistics_test combines two fixed values.",
  ["llvm_propeller_statistics.h", "llvm_propeller_statistics.cc"],
  [("combination", "PropellerStats::operator+=")],
  ["every counter after combination"])

prop("R12", "Propeller generation is its stages, end to end",
  "Generating Propeller profiles writes exactly the cluster and symbol-order files (and reports exactly the statistics) that reading the recordings, translating, aggregating, building the graph, laying it out and writing define when composed: every usable recording counts once and unusable ones are skipped, the name or build id the user asked for decides which mappings count, and the options reach the stage they are for. Mixed or unsupported profile kinds, no input, no usable recording, an unreadable recording or binary, or a stage's refusal end in an error with no output written. Progress only grows, reflects the completed stages by weight, and ends at 100% exactly on success; progress consumers are started and stopped once, and telemetry reporters run once on success and never on failure. The same holds of create_llvm_prof --format=propeller, whose flags are the options and whose exit status is 0 exactly on success.",
  ["inputs", "programs", "histories"], "every binary, list of recordings, option combination and failure point",
  "The end-to-end tests (not built here) run a few recorded profiles and compare golden files.",
  ["llvm_propeller_profile_generator.cc", "llvm_propeller_profile_computer.cc", "llvm_propeller_perf_lbr_aggregator.cc", "llvm_propeller_perf_branch_frequencies_aggregator.cc", "create_llvm_prof.cc", "llvm_propeller_options_builder.cc"],
  [("tool", "create_llvm_prof.cc CreatePropellerOptionsFromFlags"), ("pipeline", "GeneratePropellerProfiles, PropellerProfileComputer"), ("reading", "PerfLbrAggregator, PerfBranchFrequenciesAggregator")],
  ["the output files", "the statistics", "the progress seen by consumers", "telemetry calls", "the status returned"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
