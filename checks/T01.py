import os, re
import profgen
from profgen import *

REAL = ["__cxx_global_var_init", "__cxx_global_var_init.7", "_GLOBAL__sub_I_a.cc", "__strip_all_special_$erqweriwe2313541__x",
        "__keep_sole_special_$sdlfa3293481293__", "__keep_cold_special_$203128ksjldfaskf__2", "_GLOBAL__sub_I", "a",
        "_ZNK16GWSLogEntryProto18_InternalSerializeEPhPN6proto22io19EpsCopyOutputStreamE.x"]
RES = ["a", "^a$", ".*", "main", "^(b|c)", "z+", "nothing", "_Z.*", "a|b"]


class Check(ProfCheck):
    pid = "T01"
    gens = []
    gens_thorough = []
    tools = ("profile_merger",)
    level_note = ("TLC checks the laws of merging and shaping on every small profile (P02, P05, P07 and this model); the built tool is "
                  "run on files of every format with random flags, and the files it leaves, read back, are judged by MergedGcc / "
                  "MergedLlvm of ProfTrace.tla.")
    assumptions = ["inputs of one run have one format and version", "LLVM's own profile library reads and writes its formats correctly"]

    @property
    def mc(self):
        return [("ProfMC", "P02MC", 3)]

    @property
    def mc_thorough(self):
        return [("ProfMC", "P02MC_big", 6)]

    def count(self):
        return 350 if self.tier == "quick" else 6000

    def build_harness(self):
        for t in self.tools:
            build.build("tool_" + t, build.ALL + [t + ".cc"])
        return build.build(*self.harness)

    def run_harness(self, exe, scripts, tag, env=None):
        return super().run_harness(exe, scripts, tag, dict(env or {}, VH_TOOLS=build.B + "/bin"))

    def inputs(self, b, r, llvm, ver, lists=False, m0=0, n=None):
        files = []
        for m in range(m0, m0 + (n or r.choice([1, 2, 2, 3]))):
            b.profile(m, samples=r.randint(1, 12), entries=.7, lines=[0, 1, 2, 3, 5, 100, 65535], discs=[0, 0, 1, 2, 7],
                      thr=r.choice([None, None, 0, 3]) if b.unit == 1 else None)
            f = b.file()
            if llvm:
                o = dict(op="writellvm", m=m, file=f, fmt=r.choice(["text", "binary", "ext", "ext"]))
                if lists and o["fmt"] == "ext" and r.random() < .7:
                    o["list"] = sorted(r.sample(PLAIN + ["q1", "q2"], r.randint(0, 4)))
                    b.more |= set(o["list"])
                b.op(**o)
            else:
                if r.random() < .4:
                    b.op(op="upws", m=m, i=r.randint(0, 127), num=r.choice([5, 10, 37]), n=r.choice([1, 4]))
                b.times(m)
                b.op(op="writegcc", m=m, file=f, ver=ver)
            files.append(f)
        return files

    def one(self, r):
        special = r.random() < .3
        b = B(r, r.sample(REAL, 4) if special else r.sample(PLAIN + D4 + DOTTED[:4], 4), r.choice([1, 1, 1, 1, 7 * 64, 1 << 31]))
        if special:
            b.unit = 1
        llvm = special or r.random() < .65
        ver = r.choice([1, 2, 2, 3])
        b.norec = r.random() < .6
        files = self.inputs(b, r, llvm, ver, lists=True)
        floor = 10 if b.unit == 1 else 0
        for i in range(r.choice([1, 1, 2])):
            order = r.choice([files, files, files[::-1], files + [r.choice(files)]])
            a = r.choice([0, 0, 1, 8, 20]) if floor else 0
            out = b.file()
            args = ["--output_file=@{%s}" % out] + ["@{%s}" % f for f in order]
            if a or r.random() < .3:
                args.append("--sample_threshold_frac=%r" % (a / 64))
            pol = r.choice(["selected", "selected", "all", "none"])
            if pol != "selected" or r.random() < .2:
                args.append("--suffix_elision_policy=" + pol)
            o = dict(op="tool", pol=pol, tool="profile_merger", llvm=llvm, ins=order, file=out, floor=floor, a=a)
            if not llvm:
                if r.random() < .5:
                    args.append("--gcov_version=%d" % ver)
                b.op(args=args, ver=ver, **o)
                b.new(5, "none")
                b.op(op="readgcc", m=5, file=out, force=r.random() < .5, gap=gap(b.unit))
                b.op(op="times", m=5)
                b.op(op="getws", m=5)
                continue
            flags = []
            o["fmt"] = r.choice(["text", "binary", "extbinary", "extbinary", "extbinary"]) if r.random() < .97 else "other"
            pool = ["compress", "use_md5", "partial_profile"]
            if o["fmt"] == "extbinary" or r.random() < .15:
                flags += [x for x in pool if r.random() < .2]
            if r.random() < .6:
                flags.append("include_symbol_list")
            o["flags"] = flags
            o["special"] = special and r.random() < .8
            o["nest"] = r.choice([0, 1, 2, 3]) if b.norec else 0
            o["inl"] = r.choice([0, 0, 0, -1, 1, 2])
            o["tgs"] = r.choice([0, 0, 0, 1, 2])
            rx = r.choice(RES) if r.random() < .3 else ""
            o["sel"] = rx
            args += ["--is_llvm", "--format=" + o["fmt"]] + ["--" + x for x in flags]
            if o["special"]:
                args.append("--merge_special_syms=false")
            for flag, k in (("max_inline_callsite_nesting_level", "nest"), ("inline_instances_at_same_loc_cutoff", "inl"), ("max_call_targets", "tgs")):
                if o[k] or r.random() < .2:
                    args.append("--%s=%d" % (flag, o[k]))
            if rx:
                args.append("--strip_symbols_regex=" + rx)
            at = [x for x in args if x[0] == "@"]
            r.shuffle(args)
            args = [at.pop(0) if x[0] == "@" else x for x in args]
            b.op(want="llvm", args=args, ver=0, **o)
            # what it wrote is input in turn, whether it has names or hashes
            if o["fmt"] == "extbinary" and r.random() < .7:
                md5, last = "use_md5" in flags, out
                for j in range(r.choice([1, 1, 2])):
                    again = b.file()
                    o = dict(o, ins=[last] * r.choice([1, 2, 2]), file=again, floor=floor, a=0, pol="none", special=False, nest=0, inl=0, tgs=0, sel="")
                    o["fmt"] = r.choice(["extbinary", "extbinary", "extbinary", "binary"] + ["text"] * (not md5))
                    flags = [x for x in ["compress", "use_md5", "partial_profile"] if o["fmt"] == "extbinary" and r.random() < .4]
                    flags += [x for x in ["include_symbol_list"] if r.random() < .6]
                    o["flags"] = flags
                    b.op(want="llvm", ver=0, args=["--output_file=@{%s}" % again] + ["@{%s}" % f for f in o["ins"]] +
                         ["--is_llvm", "--format=" + o["fmt"], "--suffix_elision_policy=none"] + ["--" + x for x in flags], **o)
                    if o["fmt"] == "text":
                        break
                    md5, last = md5 or "use_md5" in flags, again
        s = b.script()
        for o in s["ops"]:
            if o["op"] == "tool" and "sel" in o:
                o["sel"] = [x["name"] for x in s["names"] if o["sel"] and self.matches(o["sel"], x["name"])]
        return s

    @staticmethod
    def matches(rx, name):
        return re.fullmatch(rx, name) is not None
