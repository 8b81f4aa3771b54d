import build, vf


class Check(vf.Check):
    pid = "G01"
    harness = ("G01", build.ALL + ["h:G01.cc"])
    trace = "GcovTrace"
    mc = [("GcovMC", "GcovMC", 2)]
    mc_thorough = [("GcovMC", "GcovMC_big", 7)]
    level_note = ("The buffered writer and reader are model-checked against the unbuffered specification for every sequence of sizes up "
                  "to the bound, with files cut short; recorded calls of the real ones (strings longer than the buffer, files of all "
                  "versions, truncated and missing files, full devices) are validated by TLC byte for byte.")
    assumptions = ["little-endian machine", "files smaller than 4 GiB", "strings contain no zero byte"]

    def string(self, r, big):
        n = r.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, r.randint(0, 40)])
        if big and r.random() < .5:
            n = r.choice([4091, 4096, 8191, 8192, 16379, 16380, 16382, 16383, 16384, 16385, 33000])
        return [r.choice([1, 65, 97, 127, 128, 255]) for _ in range(n)]

    def item(self, r, big):
        k = r.choice("uucsss")
        if k == "s":
            return k, self.string(r, big)
        n = 4 if k == "u" else 8
        return k, r.choice([[0] * n, [255] * n, [0] * (n - 1) + [128], [r.randrange(256) for _ in range(n)], [r.randrange(5)] + [0] * (n - 1)])

    def size(self, ver, k, v):
        return len(v) if k != "s" else 4 + (len(v) + 1 if ver >= 2 else (len(v) + 4) // 4 * 4)

    def scripts(self, r, tier):
        out = []
        for i in range(500 if tier == "quick" else 6000):
            big = r.random() < .04
            many = not big and r.random() < .02
            ver = r.choice([1, 2, 2, 3])
            ops = [{"op": "ver", "v": ver}]
            held = {}
            for _ in range(r.randint(1, 5)):
                x = r.random()
                if x < .04:
                    ops += [{"op": "open", "name": "full", "mode": "w"}]
                    for _ in range(r.choice([0, 1, 2])):
                        k, v = self.item(r, False)
                        ops.append({"op": "w", "k": k, "v": v})
                    ops.append({"op": "close"})
                elif x < .5 or not held:
                    n = r.choice("abc")
                    ops.append({"op": "open", "name": n, "mode": "w"})
                    its = [self.item(r, big) for _ in range(r.randint(0, 6) if big else r.randint(1500, 3000) if many else r.randint(0, 25))]
                    again, many = many, False
                    ops += [{"op": "w", "k": k, "v": v} for k, v in its]
                    ops.append({"op": "close"})
                    held[n] = its
                    if again:
                        ops.append({"op": "open", "name": n, "mode": "r"})
                        ops += [{"op": "r", "k": k} for k, _ in its] + [{"op": "close"}]
                    if r.random() < .4:
                        t = sum(self.size(ver, k, v) for k, v in its)
                        ops.append({"op": "cut", "name": n, "n": max(0, t - r.choice([1, 2, 3, 4, 5, 7, 8, 9, r.randint(0, t)]))})
                else:
                    n = r.choice(sorted(held))
                    ops.append({"op": "open", "name": n, "mode": "r"})
                    its = held[n]
                    # numbers may be read as halves or pairs
                    ks, mix = [], r.random() < .3
                    for k, _ in its:
                        ks += ["u", "u"] if k == "c" and mix and r.random() < .5 else [k]
                    ks += [r.choice("ucs") for _ in range(r.choice([0, 0, 1, 3]))]
                    ks = ks[:r.choice([len(ks), len(ks), r.randint(0, len(ks))])]
                    ops += [{"op": "r", "k": k} for k in ks] + [{"op": "close"}]
            if r.random() < .1:
                ops.append({"op": "open", "name": r.choice(["none/x", "missing"]), "mode": "r"})
            elif r.random() < .05:
                ops.append({"op": "open", "name": "none/x", "mode": "w"})
            out.append({"ops": ops})
        return out
