"""Builds harnesses from /repo's current sources, offline.

Objects are cached under /verif/build by the content of everything they were
compiled from, so a check rebuilds exactly what a change in /repo touched.
"""
import fcntl, glob, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
CXX = "/usr/bin/g++"
BASE = ["-std=c++17", "-O1", "-w", "-fno-omit-frame-pointer",
        "-D_GLIBCXX_ASSERTIONS",
        "-include", "filesystem", "-include", "absl/strings/str_format.h",
        "-I" + V + "/compat/inc", "-I" + B + "/gen", "-I" + B + "/pb",
        "-I" + REPO, "-I" + REPO + "/util", "-I" + V + "/harness"]
LLVM = ["-DHAVE_LLVM=1", "-isystem", "/usr/lib/llvm-20/include"]


class BuildError(Exception):
    pass


_sha_cache = {}


def _sha(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _sha_cache:
        with open(path, "rb") as f:
            _sha_cache[k] = hashlib.sha256(f.read()).hexdigest()
    return _sha_cache[k]


def _write_if_changed(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def prepare():
    """Overlay headers and protobuf code."""
    os.makedirs(B + "/obj", exist_ok=True)
    os.makedirs(B + "/pb", exist_ok=True)
    stamp = hashlib.sha256((_sha(V + "/compat/gen_overlay.py") +
                            (_sha("/usr/include/absl/strings/str_cat.h") or "") + "1").encode()).hexdigest()
    sf = B + "/gen/.stamp"
    if not (os.path.exists(sf) and open(sf).read() == stamp):
        r = _run([sys.executable, V + "/compat/gen_overlay.py", B + "/gen"])
        if r.returncode:
            raise BuildError(r.stdout.decode())
        with open(sf, "w") as f:
            f.write(stamp)
    tmp = B + "/pbtmp.%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    for d, p in ((REPO, "llvm_propeller_cfg"), (REPO, "llvm_propeller_options"),
                 (V + "/compat/proto", "perf_data")):
        r = _run(["/usr/bin/protoc", "-I" + d, "--cpp_out=" + tmp, d + "/" + p + ".proto"])
        if r.returncode:
            raise BuildError(r.stdout.decode())
        for e in (".pb.h", ".pb.cc"):
            with open(tmp + "/" + p + e, "rb") as f:
                _write_if_changed(B + "/pb/" + p + e, f.read())
            os.unlink(tmp + "/" + p + e)
    os.rmdir(tmp)


def _resolve(src):
    if os.path.isabs(src):
        return src
    if src.startswith("pb:"):
        return B + "/pb/" + src[3:] + ".pb.cc"
    if src.startswith("h:"):
        return V + "/harness/" + src[2:]
    return REPO + "/" + src


def compile_one(src, flags):
    path = _resolve(src)
    cmd = [CXX] + BASE + list(flags) + ["-c", path]
    key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:24]
    name = os.path.basename(path).replace(".", "_") + "-" + key
    obj, meta = B + "/obj/" + name + ".o", B + "/obj/" + name + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(_sha(p) == h for p, h in deps.items()):
                return obj
        except ValueError:
            pass
    dep = obj + ".%d.d" % os.getpid()
    tmp = obj + ".%d.tmp" % os.getpid()
    r = _run(cmd + ["-o", tmp, "-MD", "-MF", dep])
    if r.returncode:
        raise BuildError("cannot compile %s:\n%s" % (path, r.stdout.decode(errors="replace")[:4000]))
    words = open(dep).read().replace("\\\n", " ").split()
    os.unlink(dep)
    deps = {p: _sha(p) for p in words[1:] if not p.startswith("/usr/")}
    deps[path] = _sha(path)
    os.rename(tmp, obj)
    with open(meta + ".%d" % os.getpid(), "w") as f:
        json.dump(deps, f)
    os.rename(meta + ".%d" % os.getpid(), meta)
    return obj


ABSL = sorted("-l" + os.path.basename(p)[3:-3] for p in glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so"))
LIBS = ["-L/usr/lib/llvm-20/lib", "-Wl,-rpath,/usr/lib/llvm-20/lib", "-lLLVM-20", "-lprotobuf", "-lglog",
        "-lgflags"] + ABSL + ["-lelf", "-lcrypto", "-lz", "-lpthread"]


def build(name, srcs, flags=None, jobs=8):
    """Compiles srcs and links them to build/bin/name. A source is a path in
    /repo, 'h:x.cc' in /verif/harness, 'pb:x' for protobuf code, or a pair
    (source, extra flags)."""
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        prepare()
        flags = LLVM if flags is None else flags
        jobsl = [(s if isinstance(s, tuple) else (s, flags)) for s in srcs]
        with ThreadPoolExecutor(jobs) as ex:
            objs = list(ex.map(lambda j: compile_one(*j), jobsl))
        os.makedirs(B + "/bin", exist_ok=True)
        out = B + "/bin/" + name
        key = hashlib.sha256("\0".join(o + (_sha(o) or "") for o in objs).encode()).hexdigest()
        kf = out + ".key"
        if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        r = _run([CXX, "-o", tmp] + objs + LIBS)
        if r.returncode:
            raise BuildError("cannot link %s:\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
        os.rename(tmp, out)
        with open(kf, "w") as f:
            f.write(key)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()

# Everything the LLVM flavour of the tools is made of.
ALL = """addr2line.cc addr2cu.cc branch_aggregation.cc branch_frequencies_autofdo_sample.cc
frequencies_branch_aggregator.cc gcov.cc instruction_map.cc lbr_branch_aggregator.cc llvm_profile_reader.cc
llvm_profile_writer.cc llvm_propeller_binary_address_mapper.cc llvm_propeller_binary_content.cc
llvm_propeller_cfg.cc llvm_propeller_chain_cluster_builder.cc llvm_propeller_code_layout.cc
llvm_propeller_code_layout_scorer.cc llvm_propeller_file_perf_data_provider.cc llvm_propeller_formatting.cc
llvm_propeller_node_chain.cc llvm_propeller_node_chain_assembly.cc llvm_propeller_node_chain_builder.cc
llvm_propeller_options_builder.cc llvm_propeller_perf_branch_frequencies_aggregator.cc
llvm_propeller_perf_lbr_aggregator.cc llvm_propeller_profile_computer.cc llvm_propeller_profile_generator.cc
llvm_propeller_profile_writer.cc llvm_propeller_program_cfg.cc llvm_propeller_program_cfg_builder.cc
llvm_propeller_program_cfg_proto_builder.cc llvm_propeller_statistics.cc llvm_propeller_telemetry_reporter.cc
mini_disassembler.cc perfdata_reader.cc profile.cc profile_creator.cc profile_reader.cc profile_symbol_list.cc
profile_writer.cc sample_reader.cc simple_spe_sample_reader.cc source_info.cc spe_sample_reader.cc
spe_tid_pid_provider.cc status_consumer_registry.cc status_provider.cc symbol_map.cc
util/symbolize/elf_reader.cc""".split() + ["pb:llvm_propeller_cfg", "pb:llvm_propeller_options", "pb:perf_data"]

# Sources there are besides: programs, tests, and parts this flavour does not
# have. A source file listed nowhere is new, and part of everything.
BESIDES = """addr2cu_test.cc addr2line_test.cc branch_frequencies_autofdo_sample_test.cc create_gcov.cc create_llvm_prof.cc
disassembler_test.cc dump_gcov.cc instruction_map_test.cc lbr_branch_aggregator_test.cc legacy_addr2line.cc
llvm_profile_reader_test.cc llvm_profile_writer_test.cc llvm_propeller_binary_address_mapper_test.cc
llvm_propeller_cfg_test.cc llvm_propeller_cfg_testutil.cc llvm_propeller_code_layout_test.cc
llvm_propeller_file_perf_data_provider_test.cc llvm_propeller_function_cluster_info_matchers.cc
llvm_propeller_generate_testdata.cc llvm_propeller_mock_program_cfg_builder.cc
llvm_propeller_mock_whole_program_info.cc llvm_propeller_perf_branch_frequencies_aggregator_test.cc
llvm_propeller_perf_lbr_aggregator_test.cc llvm_propeller_profile_computer_test.cc
llvm_propeller_profile_generator_test.cc llvm_propeller_program_cfg_builder_test.cc
llvm_propeller_program_cfg_proto_builder_test.cc llvm_propeller_program_cfg_test.cc
llvm_propeller_statistics_test.cc perfdata_reader_test.cc profile_diff.cc profile_merger.cc
profile_symbol_list_test.cc sample_merger.cc sample_reader_test.cc spe_sample_reader_test.cc
summary_calculation_test.cc symbol_map_test.cc timestamp_test.cc""".split()


def _main(path):
    with open(path, errors="replace") as f:
        return "int main(" in f.read()


ALL = [s for s in ALL if s[:3] == "pb:" or os.path.exists(REPO + "/" + s)] + [
    f for f in sorted(os.path.basename(p) for p in glob.glob(REPO + "/*.cc"))
    if f not in ALL and f not in BESIDES and not f.endswith("_test.cc") and not _main(REPO + "/" + f)]
