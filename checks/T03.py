import profgen
from profgen import *
import T01


class Check(T01.Check):
    pid = "T03"
    tools = ("profile_diff", "dump_gcov")
    level_note = ("TLC checks the laws of the overlap on every small pair of profiles; the built tools are run on files of every "
                  "format with random flags and what they print is judged by DumpTool / DiffTool of ProfTrace.tla.")

    @property
    def mc(self):
        return [("ProfMC", "P09MC", 2)]

    @property
    def mc_thorough(self):
        return [("ProfMC", "P09MC_big", 6)]

    def pol(self, r, args):
        pol = r.choice(["selected", "selected", "all", "none"])
        if pol != "selected":
            args.append("--suffix_elision_policy=" + pol)
        return pol

    def one(self, r):
        names = r.sample(PLAIN + DOTTED[:4], r.choice([3, 4, 6]))
        if r.random() < .5:
            b = B(r, names, r.choice([1, 1, 7 * 64, 1 << 31]))
            ver = r.choice([1, 2, 3])
            for f in self.inputs(b, r, False, ver, n=r.choice([1, 2])):
                args = ["@{%s}" % f]
                pol = self.pol(r, args)
                if r.random() < .2:
                    args.append("--gcov_version=%d" % r.choice([1, 2, 3]))
                r.shuffle(args)
                b.op(op="tool", tool="dump_gcov", want="dump", args=args, pol=pol, ins=[f])
            return b.script()
        b = B(r, names, 1)
        fs = []
        for m in (0, 1):
            b.new(m, "none")
            left = r.choice([1, 20, 100, 390])
            same = r.choice([0, 0, 3, 7])
            for f in r.sample(b.names, r.randint(0, len(names))):
                b.sym(m, f)
                n = min(left, same) or r.randint(0, left)
                left -= n
                if n:
                    b.op(op="src", m=m, name=f, stack=b.stack(f, r.choice([0, 1]), True), n=n, inst=1, dup=1, strict=True)
            b.sym(m, "zz")       # never an empty file
            b.op(op="src", m=m, name="zz", stack=b.stack("zz", 0, True), n=1, inst=1, dup=1, strict=True)
            f = b.file()
            b.op(op="writellvm", m=m, file=f, fmt=r.choice(["text", "binary", "ext"]))
            fs.append(f)
        for _ in range(r.choice([1, 2])):
            ins = r.choice([fs, fs[::-1], [fs[0], fs[0]]])
            args = []
            pol = self.pol(r, args)
            pct, cmp = 2, r.random() < .7
            if r.random() < .7:
                pct = r.choice([0, 1, 2, 10, 25, 50, 100, 101])
                args.append("--dump_cutoff_percent=%d" % pct)
            if cmp:
                args.append("--compare_function")
            at = ["@{%s}" % f for f in ins]
            args += at
            r.shuffle(args)
            args = [at.pop(0) if x[0] == "@" else x for x in args]
            b.op(op="tool", tool="profile_diff", want="diff", args=args, pol=pol, ins=ins, pct=pct, cmp=cmp)
        return b.script()
