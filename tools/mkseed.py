#!/usr/bin/env python3
"""mkseed.py ID PROPERTY SOURCES DEMO.cc [FILES...]  -- NEEDS and BREAKS from the environment; the diff of the
worktree /tmp/wt against its HEAD becomes the patch. SOURCES: comma list of /repo files ('ALL' for every one)."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, "/verif/lib")
import build
id, prop, srcs, demo = sys.argv[1:5]
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
patch = subprocess.run(["git", "-C", "/tmp/wt", "diff"], stdout=subprocess.PIPE).stdout.decode()
if patch.strip():
    open(d + "/patch.diff", "w").write(patch)
shutil.rmtree(d + "/compat", ignore_errors=True)
shutil.copytree("/verif/compat", d + "/compat")
if os.path.abspath(demo) != d + "/demo.cc":
    shutil.copy(demo, d + "/demo.cc")
for f in sys.argv[5:]:
    shutil.copy(f, d)
A = [s for s in build.ALL if not s.startswith("pb:")]
s = " ".join(A if srcs == "ALL" else srcs.split(","))
open(d + "/demo.sh", "w").write(r'''#!/bin/bash
# Builds demo.cc with the sources below from the current directory and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/gen" "$t/o"
python3 "$here/compat/gen_overlay.py" "$t/gen" >/dev/null
for p in "$repo/llvm_propeller_cfg" "$repo/llvm_propeller_options" "$here/compat/proto/perf_data"; do
  protoc -I"$(dirname $p)" --cpp_out="$t/gen" $p.proto
done
F="-std=c++17 -O1 -w -D_GLIBCXX_ASSERTIONS -DHAVE_LLVM=1 -include filesystem -include absl/strings/str_format.h
 -I$here/compat/inc -I$t/gen -I$repo -I$repo/util -isystem /usr/lib/llvm-20/include"
srcs="''' + s + r'''"
for s in $srcs; do echo "$repo/$s"; done > "$t/list"
ls "$t"/gen/*.pb.cc "$here/demo.cc" >> "$t/list"
xargs -P 8 -I{} sh -c 'g++ '"$(echo $F)"' -c {} -o "$1/o/$(echo {} | md5sum | cut -c1-12).o"' _ "$t" < "$t/list"
A=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | sed 's#.*/lib#-l#; s#\.so$##')
g++ -o "$t/demo" "$t"/o/*.o -L/usr/lib/llvm-20/lib -Wl,-rpath,/usr/lib/llvm-20/lib -lLLVM-20 -lprotobuf -lglog -lgflags $A -lelf -lcrypto -lz -lpthread
cd "$t"
"$t/demo" "$here"
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": os.environ["NEEDS"], "what_it_breaks": os.environ["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
