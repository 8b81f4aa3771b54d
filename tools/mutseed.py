#!/usr/bin/env python3
"""mutseed.py FILE ID...: turns bugs of a survey file (M(id, property, file, old, new[, count]) lines; NEEDS/BREAKS
given by D(id, name, property, needs, breaks)) into /verif/seeded/<name>. The check named finds a failing history; the
demonstration drives the same code with that history alone and compares with the answer recorded on the right code."""
import importlib, json, os, re, shutil, subprocess, sys
sys.path[:0] = ["/verif/lib", "/verif/checks"]
muts, descr = {}, {}
def M(id, prop, f, a, b, n=1): muts[id] = (f, a, b, n)
def D(id, name, prop, needs, breaks): descr[id] = (name, prop, needs, breaks)
for f in sys.argv[1].split(","): exec(open(f).read())
W, BD = "/tmp/ms/repo", "/tmp/ms/bd"
os.makedirs("/tmp/ms", exist_ok=True)
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(W): sh("git clone -q /repo " + W)

DEMO = r'''#!/bin/bash
# Builds driver.cc with the sources below from the current directory, runs the
# history in script.jsonl and compares what the code did with right.jsonl.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/gen" "$t/o" "$t/w"
python3 "$here/compat/gen_overlay.py" "$t/gen" >/dev/null
for p in "$repo/llvm_propeller_cfg" "$repo/llvm_propeller_options" "$here/compat/proto/perf_data"; do
  protoc -I"$(dirname $p)" --cpp_out="$t/gen" $p.proto
done
F="-std=c++17 -O1 -w -D_GLIBCXX_ASSERTIONS -DHAVE_LLVM=1 -include filesystem -include absl/strings/str_format.h
 -I$here/compat/inc -I$t/gen -I$repo -I$repo/util -I$here -isystem /usr/lib/llvm-20/include"
srcs="@SRCS@"
for s in $srcs; do echo "$repo/$s"; done > "$t/list"
ls "$t"/gen/*.pb.cc "$here/driver.cc" >> "$t/list"
xargs -P 8 -I{} sh -c 'g++ '"$(echo $F)"' -c {} -o "$1/o/$(echo {} | md5sum | cut -c1-12).o"' _ "$t" < "$t/list"
A=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | sed 's#.*/lib#-l#; s#\.so$##')
g++ -o "$t/demo" "$t"/o/*.o -L/usr/lib/llvm-20/lib -Wl,-rpath,/usr/lib/llvm-20/lib -lLLVM-20 -lprotobuf -lglog -lgflags $A -lelf -lcrypto -lz -lpthread
cd "$t"
@ENV@ VH_TMP="$t/w" "$t/demo" "$here/script.jsonl" "$t/out"
diff "$here/right.jsonl" "$t/out" > "$t/diff" || { head -c 2000 "$t/diff"; exit 1; }
'''

for id in sys.argv[2:]:
    name, prop, needs, breaks = descr[id]
    f, a, b, n = muts[id]
    sh("cd %s && git fetch -q && git reset -q --hard origin/HEAD" % W)
    p = W + "/" + f; s = open(p).read()
    if s.count(a) != n: print(id, "BADPATTERN", s.count(a)); continue
    open(p, "w").write(s.replace(a, b))
    env = dict(os.environ, VERIF_REPO=W, VERIF_BUILD=BD)
    r = sh("cd /tmp/ms && rm -rf vf && rsync -a --exclude .git --exclude build --exclude seeded --exclude evidence /verif/ vf/ && mkdir vf/evidence && cd vf && python3 check.py %s quick" % prop, env=env)
    m = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
    if not m: print(id, "NOT CAUGHT", r.stdout[-300:]); continue
    rp = m.group(1)
    if not os.path.isabs(rp): rp = "/tmp/ms/vf/" + rp
    sc = json.load(open(rp)).get("scripts")
    if not sc: print(id, "no scripts in", rp); continue
    C = importlib.import_module(prop).Check
    hn, hs = C.harness
    drv = [x for x in hs if x.startswith("h:")]
    assert len(drv) == 1
    d = "/verif/seeded/" + name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
    shutil.copytree("/verif/compat", d + "/compat", ignore=shutil.ignore_patterns("__pycache__"))
    for h in os.listdir("/verif/harness"):
        if h.endswith(".h"): shutil.copy("/verif/harness/" + h, d)
    shutil.copy("/verif/harness/" + drv[0][2:], d + "/driver.cc")
    with open(d + "/script.jsonl", "w") as o:
        for i, x in enumerate(sc[:1]): o.write(json.dumps(dict(x, id=x.get("id", i + 1)), separators=(",", ":")) + "\n")
    srcs = " ".join(x for x in hs if ":" not in x)
    open(d + "/demo.sh", "w").write(DEMO.replace("@SRCS@", srcs).replace("@ENV@", ""))
    os.chmod(d + "/demo.sh", 0o755)
    # the right answer, from the right code, and it must be the same every time
    exe = sh("cd /verif && python3 -c \"import sys; sys.path.insert(0,'lib'); sys.path.insert(0,'checks'); import %s; print(%s.Check('quick',1).build_harness())\"" % (prop, prop)).stdout.strip().split("\n")[-1]
    outs = set()
    for k in range(5):
        shutil.rmtree("/tmp/ms/w", ignore_errors=True); os.makedirs("/tmp/ms/w")
        sh("VH_TMP=/tmp/ms/w %s %s/script.jsonl /tmp/ms/out" % (exe, d)); outs.add(open("/tmp/ms/out").read())
    if len(outs) != 1: print(id, "UNSTABLE"); shutil.rmtree(d); continue
    open(d + "/right.jsonl", "w").write(outs.pop())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    bad = sh("cd %s && bash %s/demo.sh" % (W, d))
    sh("cd %s && git checkout -q -- ." % W)
    good = sh("cd %s && bash %s/demo.sh" % (W, d))
    print(id, name, "demo bad rc", bad.returncode, "good rc", good.returncode, "script bytes", os.path.getsize(d + "/script.jsonl"), flush=True)
    if bad.returncode == 0 or good.returncode: print(bad.stdout[-300:], good.stdout[-600:]); shutil.rmtree(d)
