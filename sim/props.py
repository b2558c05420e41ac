"""One class per claimed property: how its worlds and fault plans are drawn, and how a run is judged."""
import collections, json, random, re
from . import gen, words
from .elm import Gen, Program, debug
from .gen import ALIEN, ENV_WORDS, VALS, VARS, tree, soften, plain, node_fault, op_fault, pattern, known, non_utf8, total, L1
from .model import exposed, in_runtime, is_quiet, judge, strict_output, overlap, step_bound, diff_at, valid_utf8, file_reads, Tree, is_elm, path_arg
from .world import E, b


def files_of(sc):
    return [i for i, n in enumerate(sc["nodes"]) if n["t"] in "FP" and i]


def supplied(r, sc, lab, p):
    """sometimes whatever else the program looks for is there"""
    if r.random() < p:
        for q in gen.asked_for(sc, lab.run(sc))[:6]:
            if not is_elm(q) and r.random() < 0.7:
                n = gen.supply(r, sc, q)
                if n["t"] == "D":
                    n.pop("d")
                sc["nodes"].append(n)


class Prop:
    quick, thorough, block = 4000, 60000, 50
    clauses = None               # of judge(); None = all
    truth = False
    rule = ""

    def pool(self, seed, block):
        return gen.Pool("%s/%s/pool/%d" % (seed, self.id, block))

    def gen(self, r, pool, lab):
        raise NotImplementedError

    def judged(self, sc, r, lab):
        return [p for p in judge(sc, r, lab, self.truth) if self.clauses is None or p[0] in self.clauses]

    def check(self, sc, lab):
        """([(clause, text)], [results of the runs with faults])"""
        r = lab.run(sc)
        return self.judged(sc, r, lab), [r]

    def nontrivial(self, sc, rs):
        return any(r.fault_fired or r.mut_fired for r in rs)


def may_soften(r, sc, p=0.5):
    return soften(r, sc) if r.random() < p else sc


# ------------------------------------------------------------------------------------------------
class C01(Prop):
    id = "C01"
    quick, thorough = 15000, 450000
    truth = True
    clauses = {"coverage", "prefix", "lost", "ignored", "alone", "truth", "stepcap"}
    rule = ("random trees (nesting to 300, up to 300 files, byte-string names, hard and symbolic links, cycles, unknown entry types, listing order) "
            "and ways to name them, under transient faults; non-trivial: the tree has an .elm file and at least three entries")

    def gen(self, r, pool, lab):
        sc, w = tree(r, pool)
        supplied(r, sc, lab, 0.12)
        return may_soften(r, sc, 0.6)

    def check(self, sc, lab):
        r = lab.run(sc)
        return strict_output(sc, r, lab) + self.judged(sc, r, lab), [r]

    def nontrivial(self, sc, rs):
        return len(sc["nodes"]) > 3 and any(n["t"] == "F" and is_elm(b(n["n"])) for n in sc["nodes"][1:])


# ------------------------------------------------------------------------------------------------
class C02(Prop):
    id = "C02"
    quick, thorough = 15000, 450000
    clauses = {"coverage", "ignored", "prefix", "lost", "silent", "stepcap", "alone"}
    rule = ("one to three failures of inspecting, listing, opening or reading (by entry, by position in the run, by descriptor limit, by entries "
            "that vanish, move or change type while the run goes on, by dangling and self-referring links) in a random tree; non-trivial: one took effect")

    def gen(self, r, pool, lab):
        if r.random() < 0.006:
            return self.counted(r, pool)
        prog = "check" if r.random() < 0.2 else "dump"
        sc, w = tree(r, pool, prog, size=None if r.random() < 0.15 else r.choice([1, 2, 3, 5, 7, 10]))
        if r.random() < 0.25:
            soften(r, sc)
        ref = lab.run(plain(sc))
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            c = r.random()
            if c < 0.40:
                f = node_fault(r, sc)
                if f:
                    sc.setdefault("nf", []).append(f)
            elif c < 0.62:
                f = op_fault(r, ref, ["open", "read", "stat", "lstat", "fstat", "opendir", "readdir", "closedir", "close"])
                if f:
                    sc.setdefault("faults", []).append(f)
            elif c < 0.84 and len(sc["nodes"]) > 1:
                i = r.randrange(1, len(sc["nodes"]))
                do = r.choice(["unlink", "unlink", "swaptype", "rename", "replace"])
                if do == "replace" and sc["nodes"][i]["t"] != "F":
                    do = "unlink"
                m = {"at": r.randrange(1, ref.steps + 2), "do": do, "node": i}
                if do == "swaptype":
                    m["arg"] = ord(r.choice("DFL"))
                    m["d"] = "y = 2\n" if m["arg"] == ord("F") else r.choice(["nowhere", "."])
                if do == "replace":
                    e = pool.pick(r, None, 20000)
                    m["d"], m["tr"] = e["d"], e.get("tr")
                if do == "rename":
                    m["d"] = "moved%d.elm" % r.randrange(100)
                sc.setdefault("muts", []).append(m)
            elif c < 0.89:
                sc.setdefault("cfg", {})["fdlimit"] = r.randrange(0, 12)
            elif c < 0.95 and prog == "dump":
                d = r.choice([i for i, n in enumerate(sc["nodes"]) if n["t"] == "D"])
                w.add("L", d, w.free(d, gen.STEMS, ".elm"), d=r.choice(["nowhere", "nowhere/x.elm", "self.elm", "../../../../gone.elm"]))
            else:
                a = [x for x in sc["args"] if x not in ("-q", "--quiet")][0]
                sc["args"] = [x for x in sc["args"] if x in ("-q", "--quiet")] + [a + r.choice(["x", "/gone.elm", ".gone/"])]
        return sc

    def counted(self, r, pool):
        """a number of files that counters like, and none of them can be read"""
        w = gen.World(r, pool)
        top = w.place()
        n = r.choice([256, 256, 256, 512, 255, 257, 128, 1024, 768, words.near(r, 2, 2000, 100)])
        how = r.choice(["utf8", "utf8", "open", "read", "dangling", "mixed"])
        nf = []
        for k in range(n):
            h = r.choice(["utf8", "open", "read", "dangling"]) if how == "mixed" else how
            if h == "dangling":
                w.add("L", top, "M%d.elm" % k, d="gone")
                continue
            i = w.add("F", top, "M%d.elm" % k, d="x = 1\n" if h != "utf8" else "x = \xff\n")
            if h != "utf8":
                nf.append({"node": i, "kind": h, "err": E[r.choice(["EACCES", "EIO"])], "at": 0, "times": 0})
        sc = w.scenario(top, "dump")
        if nf:
            sc["nf"] = nf
        return sc

    def nontrivial(self, sc, rs):
        return any(r.fault_fired or r.mut_fired or not r.ok for r in rs)


# ------------------------------------------------------------------------------------------------
class C03(Prop):
    id = "C03"
    quick, thorough = 16000, 480000
    rule = ("every read and write cut into pieces by a pattern, EINTR bursts at opens, reads, writes and closes, false file sizes, delays; "
            "compared with the same world without them; non-trivial: at least one transfer was cut or interrupted")

    def gen(self, r, pool, lab):
        prog = "check" if r.random() < 0.25 else "dump"
        sc, w = tree(r, pool, prog, size=r.choice([1, 2, 3, 5, 8]) if r.random() < 0.8 else None)
        if r.random() < 0.15 and files_of(sc):
            i = r.choice(files_of(sc))
            sc["nodes"][i] = dict(sc["nodes"][i], d=non_utf8(r, {"d": sc["nodes"][i].get("d", "")})["d"])
            sc["nodes"][i].pop("tr", None)
        if r.random() < 0.15:
            f = node_fault(r, sc)
            if f and not f["times"]:
                sc.setdefault("nf", []).append(f)
        for _ in range(r.choice([1, 1, 2])):
            soften(r, sc)
        big = total(sc) > 20000
        if r.random() < 0.5:
            sc["rpat"] = pattern(r) if not big else [r.choice([4096, 8191, 1000]), -1]
        if r.random() < 0.4:
            sc["wpat"] = pattern(r) if not big else [r.choice([4096, 1000])]
        for _ in range(r.randrange(0, 4)):
            op = r.choice(["open", "read", "out", "err", "close"])
            sc.setdefault("faults", []).append({"op": op, "nth": r.randrange(1, 30), "fx": "errno", "arg": E["EINTR"], "rep": r.choice([1, 2, 3, 20])})
        if r.random() < 0.3:
            sc.setdefault("faults", []).append({"op": r.choice(["open", "read", "out", "stat", "readdir"]), "nth": r.randrange(1, 10), "fx": "delay",
                                               "arg": r.choice([10 ** 6, 10 ** 9, 10 ** 13]), "rep": r.choice([1, 5, 100])})
        return sc

    def check(self, sc, lab):
        base = plain(sc)
        base.update({k: sc[k] for k in ("nf", "env") if sc.get(k)}, cfg={k: v for k, v in sc.get("cfg", {}).items() if k in ALIEN})
        ref, r = lab.run(base), lab.run(sc)
        bad = []
        if r.out != ref.out:
            bad.append(("differs", "stdout has %r where the undisturbed run has %r" % (diff_at(r.out, ref.out), diff_at(ref.out, r.out))))
        if r.ended != ref.ended:
            bad.append(("status", "%s instead of %s; stderr %r" % (r.ended, ref.ended, r.errout[-200:])))
        got = sum(len(e.data) - 8 for e in r.events if e.op == "read" and not e.err)
        if r.steps > 4 * ref.steps + got + len(r.out) + len(r.errout) + r.fault_fired + 500:
            bad.append(("steps", "%d steps, %d without the disturbances" % (r.steps, ref.steps)))
        return bad, [r]


# ------------------------------------------------------------------------------------------------
class C04(Prop):
    id = "C04"
    quick, thorough = 20000, 600000
    truth = True
    clauses = {"prefix", "ignored", "lost", "truth", "alone", "stepcap"}
    rule = ("files replaced, truncated, extended, corrupted by bit flips, ended early or failing between and during the reads, and files that are not "
            "UTF-8; non-trivial: what was delivered differs from what was stored at the start, or a read failed")

    def gen(self, r, pool, lab):
        prog = "check" if r.random() < 0.25 else "dump"
        sc, w = tree(r, pool, prog, size=r.choice([1, 1, 2, 3, 5]), links=False)
        fs = files_of(sc)
        if not fs:
            return sc
        big = total(sc) > 20000
        if r.random() < 0.6:
            sc["rpat"] = [r.choice([1, 3, 7, 16, 32, 50, 100])] if not big else [4096]
        ref = lab.run({k: v for k, v in sc.items() if k not in ("faults", "muts")})
        fds, steps = {}, {}
        for e in ref.events:
            if e.op == "open" and e.ret >= 0:
                fds[e.ret] = e.a
                steps.setdefault(e.a, []).append(e.step)
            elif e.op == "read" and e.a in fds:
                steps.setdefault(fds[e.a], []).append(e.step)
        for _ in range(r.choice([1, 1, 2, 3])):
            c = r.random()
            i = r.choice(fs)
            d = sc["nodes"][i].get("d", "")
            if c < 0.40:
                do = r.choice(["set", "set", "replace", "trunc", "append", "unlink"])
                m = {"at": max(1, r.choice(steps.get(i, [1])) + r.randrange(2)), "do": do, "node": i}
                if do in ("set", "replace"):
                    if r.random() < 0.4 and d:
                        o = r.randrange(len(d))
                        m["d"] = d[:o] + r.choice("123abc\n ") + d[o + 1:]
                    else:
                        e = pool.pick(r, None, 1 << 30 if big else 20000)
                        m["d"], m["tr"] = e["d"], e.get("tr")
                elif do == "trunc":
                    m["arg"] = r.randrange(len(d) + 1)
                elif do == "append":
                    m["d"] = r.choice(["\n\nz9 = 9\n", " ", "\xff", pool.pick(r)["d"][:3000], "-- more"])
                sc.setdefault("muts", []).append(m)
            elif c < 0.60 and ref.op_count.get("read"):
                sc.setdefault("faults", []).append({"op": "read", "nth": r.randrange(1, ref.op_count["read"] + 1), "fx": "flip",
                                                   "arg": r.randrange(0, 8 * 64)})
            elif c < 0.72 and ref.op_count.get("read"):
                sc.setdefault("faults", []).append({"op": "read", "nth": r.randrange(1, ref.op_count["read"] + 1), "fx": "zero",
                                                   "rep": r.choice([1, 1, 2])})
            elif c < 0.86:
                sc.setdefault("nf", []).append({"node": i, "kind": "read", "err": E[r.choice(gen.READ_ERR)],
                                               "at": r.choice([0, len(d), r.randrange(len(d) + 1)]), "times": r.choice([0, 1])})
            else:
                n = dict(sc["nodes"][i], d=non_utf8(r, {"d": d})["d"])
                n.pop("tr", None)
                sc["nodes"][i] = n
        return sc

    def nontrivial(self, sc, rs):
        for f in file_reads(sc, rs[0]):
            if f.error or not valid_utf8(f.data) or bytes(f.data) != b(sc["nodes"][f.node].get("d", "")):
                return True
        return False


# ------------------------------------------------------------------------------------------------
class C05(Prop):
    id = "C05"
    quick, thorough = 16000, 480000
    clauses = {"prefix", "lost", "coverage", "stepcap", "alone"}
    rule = "stdout (and stderr) failing with every errno, once, for a while or for good, accepting nothing or a part; non-trivial: a write failed or was cut"

    def gen(self, r, pool, lab):
        prog = "check" if r.random() < 0.25 else "dump"
        sc, w = tree(r, pool, prog, size=r.choice([1, 2, 3, 5, 8]))
        if r.random() < 0.4:
            sc["wpat"] = pattern(r, eintr=True) if total(sc) < 20000 else [1000]
        ref = lab.run({k: v for k, v in sc.items() if k != "faults"})
        n = max(1, ref.op_count.get("out", 1))
        for _ in range(r.choice([1, 1, 2])):
            at = r.choice([1, n, r.randrange(1, n + 1), r.randrange(1, n + 1), max(1, n - 1)])
            c = r.random()
            if c < 0.7:
                f = {"fx": "errno", "arg": E[r.choice(gen.OUT_ERR)]}
            elif c < 0.8:
                f = {"fx": "zero"}
            else:
                f = {"fx": "short", "arg": r.choice([1, 2, 10, 500])}
            f.update(op="out", nth=at, rep=r.choice([1, 1, 2, 3, 10, 1000000]))
            sc.setdefault("faults", []).append(f)
        if r.random() < 0.3:
            sc["faults"].append({"op": "err", "nth": r.randrange(1, 4), "fx": "errno", "arg": E[r.choice(gen.OUT_ERR)], "rep": 1000000})
        return sc


# ------------------------------------------------------------------------------------------------
class C06(Prop):
    id = "C06"
    quick, thorough = 13000, 390000
    clauses = {"late", "prefix", "stepcap"}
    rule = ("the process killed before any of its system calls or allocations, or brought down by a failing read, write or allocation, in a run over several "
            "files; non-trivial: it died after it had begun to read a file")

    def gen(self, r, pool, lab):
        sc, w = tree(r, pool, size=r.choice([2, 3, 4, 6, 9, 14]), file_arg=0.03, quiet=r.random() < 0.4)
        if r.random() < 0.3:
            soften(r, sc)
        ref = lab.run(sc)
        c = r.random()
        outs = [e for e in ref.events if e.op in ("out", "open", "close")]
        if c < 0.35:
            f = {"op": "any", "nth": r.randrange(1, ref.steps + 1), "fx": "kill"}
        elif c < 0.55 and outs:
            f = {"op": "any", "nth": max(1, r.choice(outs).step + r.randrange(-1, 2)), "fx": "kill"}
        elif c < 0.80 and ref.mallocs:
            m = r.choice(outs).mallocs if outs and r.random() < 0.5 else r.randrange(1, ref.mallocs + 1)
            f = {"op": "malloc", "nth": max(1, m + r.randrange(-2, 4)), "fx": "kill" if r.random() < 0.6 else "errno", "arg": E["ENOMEM"], "rep": 1}
        else:
            f = op_fault(r, ref, ["open", "read", "out", "readdir", "stat"])
        if f:
            sc.setdefault("faults", []).append(f)
        return sc

    def nontrivial(self, sc, rs):
        return not rs[0].ok and bool(file_reads(sc, rs[0]))


# ------------------------------------------------------------------------------------------------
class C07(Prop):
    id = "C07"
    quick, thorough = 8000, 240000
    clauses = {"prefix", "lost", "coverage", "alone", "stepcap"}
    rule = ("runs over many files in random order with repeated, almost equal, equally long, failing and huge contents, each report compared with a run on "
            "that file alone; non-trivial: at least two files were read")

    def gen(self, r, pool, lab):
        c = r.random()
        if c < 0.85:
            sc, w = tree(r, pool, size=r.choice([3, 6, 10, 16, 25]), repeat=r.choice([0.1, 0.3, 0.6]), file_arg=0)
        elif c < 0.985:
            sc, w = tree(r, pool, size=r.choice([40, 60, 80]), repeat=0.7, file_arg=0)
        else:
            w = gen.World(r, pool)
            top = w.place()
            if c < 0.998:
                gen.wide(w, top, r.choice([300, 600, 1100]))
            else:
                n = r.choice([2000, 5000]) if c < 0.9997 else 66000
                for k in range(n // 250):
                    d = w.dir(top, "p%d" % k)
                    es = [w.pool.cheap(r) for _ in range(10)] if n < 9999 else [w.pool.cheap(r)] + 7 * [{"d": "", "tr": None}]
                    for j in range(251):
                        e = r.choice(es)
                        w.add("F", d, "F%d.elm" % j, d=e["d"], tr=e.get("tr"))
            sc = w.scenario(top)
        gen.shuffle_children(sc, r, w)
        return may_soften(r, sc, 0.3)

    def check(self, sc, lab):
        r = lab.run(sc)
        return strict_output(sc, r, lab, False) + self.judged(sc, r, lab), [r]

    def nontrivial(self, sc, rs):
        return len(file_reads(sc, rs[0])) >= 2


# ------------------------------------------------------------------------------------------------
class C08(Prop):
    id = "C08"
    quick, thorough = 11000, 330000
    rule = ("the same world run twice, once in the standard environment and once with another clock, jumps, random numbers, environment (including the variables "
            "the program was seen to consult), process id, processor count, heap layout, terminal, inode numbers, times, descriptors and speed; non-trivial: always")

    def gen(self, r, pool, lab):
        prog = "check" if r.random() < 0.25 else "dump"
        sc, w = tree(r, pool, prog)
        if r.random() < 0.15:
            f = node_fault(r, sc)
            if f and not f["times"]:
                sc["nf"] = [f]
        ref = lab.run({k: v for k, v in sc.items()})
        names = sorted({L1(e.data) for e in ref.events if e.op == "getenv"})
        asked = gen.asked_for(sc, ref)
        for q in asked[:6]:
            if r.random() < 0.6 and not self.inside(sc, q):
                n = gen.supply(r, sc, q)
                if n["t"] == "D":
                    n.pop("d")
                sc.setdefault("extra", []).append(n)
        env = []
        if r.random() < 0.8:
            here = [w.path(i) for i, n in enumerate(sc["nodes"]) if n["t"] == "D"][:12] + ["."]
            for n in r.sample(VARS + ENV_WORDS, r.randrange(0, 12)):
                env.append("%s=%s" % (n, r.choice(VALS) if r.random() < 0.8 else r.choice(here)))
            for n in names:
                if r.random() < 0.6:
                    env.append("%s=%s" % (n, r.choice(VALS + ["64", "100000"]) if r.random() < 0.6 else r.choice(here)))
        env = [e for e in env if not e.startswith("RUST_MIN_STACK=")]   # asks the language runtime for other stacks
        sc["env"] = sorted(set(env))
        cfg = sc["cfg"] = {}
        opts = {"clock": lambda: r.choice([0, 1, 10 ** 18, r.randrange(2 ** 62), 4102444800 * 10 ** 9]), "jump": lambda: r.choice([10 ** 9, 86400 * 10 ** 9, 10 ** 15]),
                "pid": lambda: r.choice([1, 2, 99999, 4194303]), "cpus": lambda: r.choice([1, 2, 3, 64, 1000]), "seed": lambda: r.randrange(1, 2 ** 60),
                "heap": lambda: r.randrange(1, 2 ** 60) | 63, "tty": lambda: r.choice([1, 3, 7]), "lat": lambda: r.choice([10 ** 3, 10 ** 6, 10 ** 10]),
                "fdbase": lambda: r.choice([3, 4, 50, 900, 2000, 5000]), "dots": lambda: r.randrange(8), "own": lambda: r.randrange(1, 2 ** 40), "uid": lambda: r.choice([0, 1, 500, 65534])}
        for k in opts:
            if r.random() < 0.5:
                cfg[k] = opts[k]()
        if r.random() < 0.3:
            sc["arg0"] = r.choice(["elm-parser-dump", "elm-parser-check", "./dump", "/usr/local/bin/elm-parser-dump", "C:\\elm.exe", "-sh", "check", "quiet", "elm-parser-quiet", "\xc3\xa9", " ", L1(words.pick(r, words.NAMES or ["x"]).encode())])
        if sc["args"][-1:] and all(a.startswith("/") for a in sc["args"] if a not in ("-q", "--quiet")) and r.random() < 0.5:
            sc["elsewhere"] = r.choice([i for i, n in enumerate(sc["nodes"]) if n["t"] == "D"])
        for n in sc["nodes"]:
            if r.random() < 0.3:
                n.setdefault("ino", r.randrange(1, 2 ** 50))
            if r.random() < 0.3:
                n["mtime"] = r.choice([0, 1, -1, 2 ** 31, r.randrange(2 ** 33)])
        return sc

    def inside(self, sc, path):
        """is it an entry below the path given to the tool?"""
        t = Tree(sc)
        arg = path_arg(sc)
        if not arg:
            return False
        root = t.resolve(t.cwd, b(arg))
        if root is None:
            return True                                 # it may be the very entry that is missing
        d = path.rpartition(b"/")[0]
        d = 0 if not d and path[:1] == b"/" else t.resolve(t.cwd, d or b".")
        while d:
            if d == root:
                return True
            d = t.nodes[d].get("p", 0)
        return root == 0

    def check(self, sc, lab):
        base = plain(sc)
        base.pop("extra", None)
        base["nodes"] = [{k: v for k, v in n.items() if k != "ino"} for n in base["nodes"]]
        if sc.get("nf"):
            base["nf"] = sc["nf"]
        other = dict(sc, nodes=sc["nodes"] + sc["extra"]) if sc.get("extra") else sc
        if "elsewhere" in sc and sc["elsewhere"] < len(sc["nodes"]) and sc["nodes"][sc["elsewhere"]]["t"] == "D":
            other = dict(other, cwd=sc["elsewhere"])
        a, z = lab.run(base), lab.run(other)
        bad = []
        if a.out != z.out:
            bad.append(("differs", "stdout has %r in the standard environment and %r in the other" % (diff_at(a.out, z.out), diff_at(z.out, a.out))))
        if a.ended != z.ended:
            bad.append(("status", "%s in the standard environment, %s in the other; stderr %r" % (a.ended, z.ended, z.errout[-200:])))
        return bad, [z]

    def nontrivial(self, sc, rs):
        return bool(sc.get("cfg") or sc.get("env"))


# ------------------------------------------------------------------------------------------------
class C09(Prop):
    id = "C09"
    quick, thorough = 25000, 750000
    truth = True
    clauses = {"prefix", "lost", "ignored", "coverage", "truth", "alone", "stepcap"}
    rule = ("programs with known imports, and texts that are not Elm, given to elm-parser-check with undisturbed, cut, interrupted and failing I/O; non-trivial: the "
            "file has imported names, does not parse, or a fault fired")

    def gen(self, r, pool, lab):
        if r.random() < 0.01:
            return {"prog": "check", "args": [], "nodes": [{"t": "D"}]}
        w = gen.World(r, pool)
        top = w.place()
        e = gen.imports_file(r, r.choice([1, 2, 3, 5])) if r.random() < 0.3 else gen.imports_file(r, words.near(r, 2, 250, 30), True) if r.random() < 0.02 else pool.pick(r)
        i = w.add("F", top, w.free(top, gen.STEMS, r.choice([".elm", ".elm", "", ".txt"])), d=e["d"], tr=e.get("tr"))
        sc = w.scenario(i, "check")
        if r.random() < 0.5:
            return may_soften(r, sc, 0.7)
        may_soften(r, sc, 0.3)
        ref = lab.run(sc)
        c = r.random()
        if c < 0.5:
            f = op_fault(r, ref, ["open", "read", "fstat", "stat", "out", "out", "close"])
            if f:
                sc.setdefault("faults", []).append(f)
        elif c < 0.65:
            sc.setdefault("faults", []).append({"op": "malloc", "nth": r.randrange(1, ref.mallocs + 1), "fx": "errno", "arg": 12, "rep": r.choice([1, 2, 10 ** 6])})
        elif c < 0.8:
            n = dict(sc["nodes"][i], d=non_utf8(r, e)["d"])
            n.pop("tr", None)
            sc["nodes"][i] = n
        elif c < 0.9:
            e2 = pool.pick(r, None, max(20000, len(e["d"])))
            sc["muts"] = [{"at": r.randrange(1, 6), "do": "set", "node": i, "d": e2["d"], "tr": e2.get("tr")}]
        else:
            sc["args"] = [sc["args"][0] + r.choice([".gone", "/x"])]
        return sc

    def check(self, sc, lab):
        r = lab.run(sc)
        if not sc["args"]:
            bad = [] if not r.ok and not r.out.startswith(b"[") else [("usage", "no file named: %s, prints %r" % (r.ended, r.out[:100]))]
            return bad, [r]
        bad = self.judged(sc, r, lab)
        hard = sc.get("muts") or sc.get("nf") or any(f.get("arg") != E["EINTR"] for f in sc.get("faults", []))
        i = Tree(sc).resolve(sc.get("cwd", 0), b(sc["args"][0]))
        if not hard and i is not None and sc["nodes"][i]["t"] != "D" and valid_utf8(b(sc["nodes"][i].get("d", ""))):
            bad = [p for p in strict_check(sc, r, lab, i)] + bad
        return bad, [r]

    def nontrivial(self, sc, rs):
        return rs[0].fault_fired > 0 or any(n.get("tr") is None or n["tr"].get("check") != "[]\n" for n in sc["nodes"][1:] if n["t"] == "F")


def strict_check(sc, r, lab, i):
    from .model import Oracle
    orc = Oracle(sc, lab, True)
    want = orc.full(b(sc["nodes"][i].get("d", "")), "check")
    bad = list(orc.problems)
    if want is not None and r.out != want:
        bad.append(("list", "prints %r where %r is due" % (diff_at(r.out, want), diff_at(want, r.out))))
    tr = sc["nodes"][i].get("tr")
    if tr and tr.get("ok") and not r.ok:
        bad.append(("status", "%s: %r" % (r.ended, r.errout[:200])))
    return bad


# ------------------------------------------------------------------------------------------------
class C10(Prop):
    id = "C10"
    quick, thorough = 20000, 600000
    rule = ("one allocation, a burst, or every allocation from some point on fails, or the heap or the largest allocation is limited, at points spread over the run and "
            "around its I/O; compared with the undisturbed run; non-trivial: an allocation failed")

    def gen(self, r, pool, lab):
        prog = "check" if r.random() < 0.3 else "dump"
        sc, w = tree(r, pool, prog, size=r.choice([1, 1, 2, 3, 4]), kinds=None)
        if r.random() < 0.15:
            soften(r, sc)
        ref = lab.run(sc)
        m = ref.mallocs
        c = r.random()
        if c < 0.85 and m:
            io = [e.mallocs for e in ref.events if e.op in ("open", "read", "out", "close", "readdir", "opendir", "stat", "fstat")] or [1]
            k = r.random()
            at = (r.choice(io) + r.randrange(-3, 4) if k < 0.45 else r.randrange(1, m + 1) if k < 0.8 else r.randrange(1, min(m, 60) + 1) if k < 0.9
                  else m - r.randrange(0, min(m, 60)))
            sc.setdefault("faults", []).append({"op": "malloc", "nth": max(1, at), "fx": "errno", "arg": 12, "rep": r.choice([1, 1, 1, 2, 5, 50, 10 ** 9])})
        elif c < 0.95:
            sc.setdefault("cfg", {})["memlimit"] = max(1, int(ref.peak * r.random()))
        else:
            sc.setdefault("cfg", {})["maxalloc"] = r.choice([64, 256, 1000, 1024, 2000, 4096, 8192, 8191, 65536])
        return sc

    def check(self, sc, lab):
        base = dict(sc)
        base["faults"] = [f for f in sc.get("faults", []) if f["op"] != "malloc"]
        base["cfg"] = {k: v for k, v in sc.get("cfg", {}).items() if k not in ("memlimit", "maxalloc")}
        ref, r = lab.run(base), lab.run(sc)
        bad = []
        if (r.code in (250, 251) or r.signal == 24) and not in_runtime(r):
            bad.append(("stepcap", "does not end after an allocation failed"))
        if not ref.out.startswith(r.out):
            bad.append(("prefix", "stdout has %r where the undisturbed run has %r" % (diff_at(r.out, ref.out), diff_at(ref.out, r.out))))
        elif r.ok and r.out != ref.out:
            bad.append(("lost", "exit 0 with %d of %d bytes of the output" % (len(r.out), len(ref.out))))
        if r.ok and not ref.ok:
            bad.append(("status", "exit 0, without the failed allocation %s" % ref.ended))
        return bad, [r]


# ------------------------------------------------------------------------------------------------
KEYWORDS = set("module where import as exposing type alias port if then else let in case of effect infix infixl infixr".split())


def lost_words(text, tree):
    """Names, numbers and words of literals of a statement that its tree does not have. Comments in the statement count
    as blank space; character literals may be shown in another way."""
    text = re.sub(r"'(?:\\x[0-9a-fA-F]+|\\.|[^'\\n])'", " ", text)
    if not text.startswith(("--", "{-")):
        text = re.sub(r"--[^\n]*", " ", text)
    tree = re.sub(r"\\(.)", lambda m: " " if m.group(1) in "nrt" else m.group(1), tree)
    need = collections.Counter(w for w in re.findall(r"[A-Za-z0-9_]+", text) if w not in KEYWORDS and w.strip("_"))
    have = collections.Counter(re.findall(r"[A-Za-z0-9_]+", tree))
    bare = re.sub(r'""".*?"""|"(?:\\.|[^"\\\n])*"', " ", text, flags=re.S)
    if not text.startswith(("--", "{-")) and '"' not in bare:
        need.update(o for o in re.findall(r"[-+/*=.$<>:&|^?%#@~!]+", bare) if o != "->" and o.strip("-.=:|") and o[-1] != "-")
        have.update(re.findall(r"[-+/*=.$<>:&|^?%#@~!]+", tree))
    return sorted(w for w in need if need[w] > have[w])


def left_open(text):
    """What a torn statement still waits for at its end: a bracket, an operand, the rest of an if, case or let. None if that
    cannot be told, or nothing is missing. (In a comment to the end of the line nothing is.)"""
    if text.startswith("{-") and "-}" not in text:
        return "the end of the comment"
    if "--" in text or "{-" in text:
        return None
    t = re.sub(r'""".*?"""|"(?:\\.|[^"\\\n])*"|(?<!\w)\'(?:\\x[0-9a-fA-F]+|\\.|[^\'\\\n])\'', " 0 ", text, flags=re.S)
    if '"' in t:
        return "the end of a literal"
    stack = []
    for c in t:
        if c in "([{":
            stack.append(c)
        elif c in ")]}" and stack:
            stack.pop()
    if stack:
        return "the end of " + stack[-1]
    words_ = re.findall(r"[A-Za-z0-9_.]+", t)
    for a, z in (("if", "then"), ("if", "else"), ("case", "of"), ("let", "in")):
        if words_.count(a) > words_.count(z):
            return "%s of %s" % (z, a)
    end = t.rstrip()
    if end.endswith(","):
        return "what follows a comma"
    m = re.search(r"[-+/*=.$<>:&|^?%#@~!\\]+$", end)
    if m and not text.startswith("infix") and m.group(0) != "..":
        return "what follows " + m.group(0)
    m = re.search(r"(?<![\w.])(then|else|of|in|let|if|case|as|exposing|import|where)$", end)
    if m:
        return "what follows " + m.group(1)
    return None


class C11(Prop):
    id = "C11"
    quick, thorough = 40000, 1200000
    block = 200
    rule = ("a program of known statements cut off at a byte, by a torn file, a truncation between two reads or an early end of file; non-trivial: the cut "
            "leaves at least one byte and removes at least one")

    def gen(self, r, pool, lab):
        g = Gen(r)
        for _ in range(50):
            p = g.program(r.choice([1, 2, 2, 3, 3, 4, 6]) if r.random() < 0.97 else words.near(r, 2, 40, 9))
            if len(p.bytes) < 6000:
                break
        d = p.bytes
        ends = [x for e in p.extents for x in e]
        c = r.random()
        cut = r.randrange(len(d) + 1) if c < 0.6 else min(len(d), max(0, r.choice(ends) + r.randrange(-3, 5)))
        while cut < len(d) and (d[cut] & 0xC0) == 0x80:
            cut += 1
        sc = {"prog": "dump", "args": ["/f.elm"], "cut": cut,
              "sts": ["    " + debug(s[1], 1) + ",\n" for s in p.sts], "ext": p.extents}
        node = {"t": "F", "n": "f.elm"}
        how = r.random()
        if how < 0.5 or cut == 0:
            node["d"] = L1(d[:cut])
        elif how < 0.75:
            node["d"] = L1(d)
            sc["rpat"] = [cut]
            node["size"] = r.choice([0, len(d), cut])
            sc["faults"] = [{"op": "read", "nth": 2, "fx": "zero"}]
            # std reads up to 32 bytes at a time into an empty buffer of unknown size: every read is cut short by `until`
            sc["until"] = cut
        else:
            node["d"] = L1(d)
            sc["rpat"] = [r.choice([1, 2, 5, 16, 30])]
            sc["muts"] = [{"at": r.randrange(1, 6), "do": "trunc", "node": 1, "arg": cut}]
        sc["nodes"] = [{"t": "D"}, node]
        sc["full"] = L1(d)
        return sc

    def check(self, sc, lab):
        r = lab.run(sc)
        fr = file_reads(sc, r)
        full = b(sc["full"])
        bad = [p for p in judge(sc, r, lab) if p[0] in ("stepcap",)]
        if len(fr) != 1 or not fr[0].eof or not full.startswith(bytes(fr[0].data)) or not valid_utf8(fr[0].data):
            if r.ok and not (fr and valid_utf8(fr[0].data) and full.startswith(bytes(fr[0].data))):
                return bad, [r]
            if not r.ok:
                return bad, [r]
        cut = len(fr[0].data)
        if not r.ok:
            if valid_utf8(fr[0].data):
                bad.append(("status", "%s on a torn file: %r" % (r.ended, r.errout[:200])))
            return bad, [r]
        if not r.out.startswith(b"["):
            return bad, [r]                         # reported as a parse failure
        body = r.out.decode("utf-8", "replace")
        body = body[2:-2] if body.startswith("[\n") and body.endswith("]\n") else body
        intact = [s for s, (a, z) in zip(sc["sts"], sc["ext"]) if z <= cut]
        started = [(a, z) for a, z in sc["ext"] if a < cut < z]
        tail = bool(started) and bool(full[started[0][0]:cut].strip())
        head = "".join(intact)
        if not body.startswith(head) and r.out != b"[]\n":
            bad.append(("intact", "cut at %d of %d: accepted, but the tree has %r where the intact statements have %r" % (
                cut, len(full), diff_at(body, head), diff_at(head, body))))
            return bad, [r]
        rest = body[len(head):] if r.out != b"[]\n" else ""
        if r.out == b"[]\n" and intact:
            bad.append(("intact", "cut at %d of %d: accepted with an empty tree" % (cut, len(full))))
            return bad, [r]
        extra = sum(1 for line in rest.split("\n") if line.startswith("    ") and line[4:5] not in (" ", ")", "}", "]", ""))
        if extra != (1 if tail else 0):
            bad.append(("tail", "cut at %d of %d: accepted with %d statements for the torn tail %r" % (
                cut, len(full), extra, full[started[0][0]:cut][-60:] if started else b"")))
        elif tail:
            lost = lost_words(full[started[0][0]:cut].decode("utf-8", "replace"), rest)
            if lost:
                bad.append(("words", "cut at %d of %d: accepted, but the tree of the torn statement %r has lost %s" % (
                    cut, len(full), full[started[0][0]:cut][-80:], ", ".join(lost[:5]))))
            waits = left_open(full[started[0][0]:cut].decode("utf-8", "replace"))
            if waits:
                bad.append(("open", "cut at %d of %d: accepted, though the torn statement %r waits for %s" % (cut, len(full), full[started[0][0]:cut][-80:], waits)))
        return bad, [r]

    def nontrivial(self, sc, rs):
        fr = file_reads(sc, rs[0])
        return bool(fr) and 0 < len(fr[0].data) < len(sc["full"])


# ------------------------------------------------------------------------------------------------
def harness_world(contents):
    return [{"t": "D"}, {"t": "D", "n": "src"}] + [{"t": "F", "p": 1, "n": str(i), "d": c} for i, c in enumerate(contents)]


def results(r):
    """{(thread, k): (source number, text)} as returned by the parses"""
    raw = b"".join(e.data for e in r.events if e.op == "result")
    out, o = {}, 0
    while o < len(raw):
        nl = raw.index(b"\n", o)
        _, t, k, n, size = raw[o:nl].split()
        size = int(size)
        out[int(t), int(k)] = (int(n), raw[nl + 1:nl + 1 + size])
        o = nl + 2 + size
    return out


def lib_alone(lab, content):
    key = ("lib", content)
    if key not in lab.refs:
        r = lab.run({"prog": "threads", "args": ["plain", "0"], "nodes": harness_world([content])})
        res = results(r)
        lab.refs[key] = res[0, 0][1] if r.ok and (0, 0) in res else None
    return lab.refs[key]


class C12(Prop):
    id = "C12"
    quick, thorough = 9000, 270000
    block = 40
    rule = ("two to four threads parsing up to three sources each under a scheduler that decides at every allocation, system call, lock, and basic block, load and store of the library who runs next; "
            "non-trivial: at least two preemptions between parses")

    def gen(self, r, pool, lab):
        k = r.choice([1, 1, 2, 2, 3, 4])
        crowd = r.random()
        if crowd < 0.06:                                       # many parses, or many threads
            k = r.choice([1, 3, 8, 20])
        contents = []
        for _ in range(k):
            while True:
                c = r.random()
                e = pool.cheap(r) if crowd < 0.06 and c < 0.7 else pool.pick(r) if c < 0.6 else gen.hostile(r) if c < 0.88 else {"d": L1(gen.worded(r, Gen(r).program(1).text).encode("utf-8", "replace"))}
                if len(e["d"]) < 3000:
                    break
            contents.append(e["d"])
        if r.random() < 0.4:                                   # as long as another, and different
            contents.append(contents[0].translate({48 + i: 48 + (i + 1) % 10 for i in range(10)}))
        threads = r.choice([2, 2, 2, 3, 4])
        length = [1, 1, 2, 3]
        if crowd < 0.02:
            threads, length = r.choice([5, 8, 9, 17, 33, words.near(r, 4, 60, 12)]), [1, 2]
        elif crowd < 0.06:
            length = [r.choice([10, 30, 80]), 5]
        if crowd < 0.03 and r.random() < 0.6:                  # one of them with much in it, but nothing hard
            contents[0] = gen.plain_lines(r, r.choice([40, 80, 130, words.near(r, 10, 300, 70)]))
        plans = [",".join(str(r.randrange(len(contents))) for _ in range(r.choice(length))) for _ in range(threads)]
        sc = {"prog": "threads", "args": ["plain"] + plans, "nodes": harness_world(contents), "cfg": {}}
        points = max(10, lab.run(sc).sched_points)
        if r.random() < 0.55:
            sc["cfg"] = {"srandom": 1, "sprob": max(1, (r.choice([2, 5, 15, 60, 400, 3000]) << 20) // points), "sseed": r.randrange(1, 2 ** 60), "shot": r.choice([0, 0, 1 << 15, 1 << 17, 1 << 18, 1 << 19])}
        else:
            pts = {r.randrange(1, points) if r.random() < 0.8 else r.randrange(1, 200) for _ in range(r.choice([1, 2, 2, 3, 5, 8]))}
            sc["pre"] = [[p, r.randrange(0, threads + 1)] for p in sorted(pts)]
        if r.random() < 0.2:
            sc["cfg"]["heap"] = r.randrange(1, 2 ** 60) | 63
        return sc

    def check(self, sc, lab):
        r = lab.run(sc)
        bad = []
        if not r.ok:
            what = "deadlock" if r.code == 251 else "no progress" if r.code == 250 or r.signal == 24 else "%s: %r" % (r.ended, r.errout[-200:])
            return [("finish", "the parses do not finish: " + what)], [r]
        res = results(r)
        plans = [[int(x) for x in p.split(",")] for p in sc["args"][1:]]
        for t, plan in enumerate(plans):
            for k, n in enumerate(plan):
                want = lib_alone(lab, sc["nodes"][2 + n].get("d", ""))
                got = res.get((t, k), (n, None))[1]
                if want is None:
                    return [("finish", "parsing source %d alone fails" % n)], [r]
                if got != want:
                    g = got or b""
                    bad.append(("differs", "thread %d parse %d of source %d gives %r, alone %r" % (t, k, n, diff_at(g, want), diff_at(want, g))))
        return bad, [r]

    def nontrivial(self, sc, rs):
        return rs[0].switches >= 2


# ------------------------------------------------------------------------------------------------
ALLOWED = {"malloc", "waits", "thread", "switch", "random", "mark", "result", "mmap", "event"}


class C13(Prop):
    id = "C13"
    quick, thorough = 20000, 600000
    block = 100
    rule = ("sources of every kind parsed through the library between two markers, with every operation failing during the parse, and dumped and checked by the "
            "tools; non-trivial: the source is not empty")

    def gen(self, r, pool, lab):
        c = r.random()
        if c < 0.25:
            e = known(Gen(r).program(r.choice([1, 2, 4])))
        elif c < 0.6:
            e = gen.hostile(r)
        elif c < 0.72:
            d = r.choice(ODD)
            if r.random() < 0.5:
                d = Gen(r).program(1).text.rstrip("\n") + "\n\n" + d
            e = {"d": L1(d.encode())}
        elif c < 0.73:
            e = r.choice([lambda: gen.comment_file(r, words.near(r, 4000, 120000, 30000)), lambda: gen.imports_file(r, words.near(r, 2, 250, 30), True),
                          lambda: gen.bulky(r, Gen(r).program(1).bytes, 120000)])()
        else:
            e = pool.pick(r)
        sc = {"prog": "threads", "args": ["mark", r.choice(["0", "0", "0,0"])], "nodes": harness_world([e["d"]])}
        if r.random() < 0.5:
            sc["faults"] = [{"op": op, "nth": 1 if op != "read" else 3, "fx": "errno", "arg": 5, "rep": 10 ** 6} for op in ("out", "err", "stat", "lstat", "opendir", "readdir")]
            sc["faults"].append({"op": "open", "nth": 2, "fx": "errno", "arg": 5, "rep": 10 ** 6})
            sc["faults"].append({"op": "thread", "nth": 1, "fx": "errno", "arg": 11, "rep": 10 ** 6})
        if r.random() < 0.3:
            sc["env"] = ["%s=%s" % (n, r.choice(VALS)) for n in r.sample(VARS, 8) if n not in ("RUST_MIN_STACK",)]
            sc["cfg"] = {"clock": r.randrange(2 ** 61), "jump": 10 ** 9, "seed": r.randrange(2 ** 60)}
        return sc

    def check(self, sc, lab):
        content = sc["nodes"][2].get("d", "")
        r = lab.run(sc)
        bad, inside, began = [], False, 0
        for e in r.events:
            if e.op == "mark":
                if e.data == b"hook":
                    bad.append(("effect", "the panic hook of the process is another one after parsing"))
                inside = e.data == b"begin"
                began += inside
            elif inside and e.op not in ALLOWED:
                bad.append(("effect", "while parsing: %s %r" % (e.op, e.data[:80] or e.a)))
                break
        want = lib_alone(lab, content)
        res = results(r)
        if not r.ok or want is None:
            bad.append(("fails", "parsing ends with %s: %r" % (r.ended, r.errout[-200:])))
        else:
            for k, (n, got) in sorted(res.items()):
                if got != want:
                    bad.append(("differs", "parse gives %r, alone %r" % (diff_at(got, want), diff_at(want, got))))
                elif got.startswith(b"PANIC"):
                    bad.append(("fails", "parsing panics"))
        if want is not None and valid_utf8(b(content)) and not want.startswith(b"PANIC"):
            # the tool prints the value the library returned, and nothing else
            text = want.split(b"\n", 1)[1]
            d = lab.run({"prog": "dump", "args": ["/f.elm"], "nodes": [{"t": "D"}, {"t": "F", "n": "f.elm", "d": content}]})
            if d.out != text + b"\n":
                bad.append(("print", "elm-parser-dump prints %r where the parse result has %r" % (diff_at(d.out, text + b"\n"), diff_at(text + b"\n", d.out))))
            if d.ok and d.errout:
                bad.append(("print", "elm-parser-dump writes to stderr: %r" % d.errout[:200]))
            c = lab.run({"prog": "check", "args": ["/f.elm"], "nodes": [{"t": "D"}, {"t": "F", "n": "f.elm", "d": content}]})
            if c.ok and c.errout:
                bad.append(("print", "elm-parser-check writes to stderr: %r" % c.errout[:200]))
            if want.startswith(b"ERR") and c.ok and c.out != text + b"\n":
                bad.append(("print", "elm-parser-check prints %r where the parse result has %r" % (diff_at(c.out, text + b"\n"), diff_at(text + b"\n", c.out))))
            lines = c.out.split(b"\n")
            if want.startswith(b"OK") and c.ok and not (c.out == b"[]\n" or lines[0] == b"[" and lines[-2:] == [b"]", b""] and all(
                    x.startswith(b'    "') and x.endswith(b'",') for x in lines[1:-2])):
                bad.append(("print", "elm-parser-check prints %r, which is not a list of names" % c.out[:200]))
        return bad, [r]

    def nontrivial(self, sc, rs):
        return bool(sc["nodes"][2].get("d"))


ODD = ["c = '\\x41'\n", "c = '\\x'\n", "c = '\\xZZ'\n", "c = '\\x110000'\n", "c = '\\n'\n", "c = '\\t'\n", "c = '\\''\n", "c = '\\\\'\n", "c = '\\q'\n", "c = 'é'\n",
       "c = ''\n", "s = \"\\x41\"\n", "s = \"\"\"a\"b\"\"\"\n", "s = \"\\u{41}\"\n", "n = 99999999999999999999999\n", "n = -0\n", "f = 1.5e10\n", "f = 1e999\n", "f = .5\n",
       "n = 0x1F\n", "infixl 99 +\n", "infixl 9999999999999999999999 +\n", "x = \\_ -> _\n", "x = (,,)\n", "x = (+)\n", "x = .a\n", "x = a.b.c\n", "port module A exposing (a)\n",
       "effect module A where { command = B } exposing (..)\n", "module A exposing ()\n", "import A as B exposing (C(..), (+), d)\n", "import A exposing (..)\n",
       "type A = A { b : c }\n", "type alias A b = { b | c : d }\n", "x = { y | z = 1 }\n", "x = [1..2]\n", "x =\n  case y of\n    _ ->\n      1\n", "{- {- -} -}\n", "--\n",
       "{-| doc -}\nx = 1\n", "x = 'a\n", "x = \"a\nb\"\n", "\tx = 1\n", "x\u00a0= 1\n", "\ufeffx = 1\n", "x = if a then b else c\n", "x = let a = 1 in a\n", "x = -a\n", "x = - 1\n"]


# ------------------------------------------------------------------------------------------------
class C14(Prop):
    id = "C14"
    quick, thorough = 16000, 480000
    clauses = {"mutate"}
    rule = ("worlds and fault plans of every kind used for the other properties, with every system call that would modify, create, remove or execute something recorded "
            "and refused; non-trivial: a fault or concurrent change took effect")

    def gen(self, r, pool, lab):
        p = ALL[r.choice(["C01", "C02", "C02", "C03", "C04", "C04", "C05", "C06", "C08", "C09", "C10", "C15", "C16"])]
        sc = p.gen(r, pool, lab)
        if r.random() < 0.4 and "env" not in sc:
            sc["env"] = ["%s=%s" % (n, r.choice(VALS + ["/w/x", "out.log"])) for n in sorted(r.sample(VARS, 10)) if n != "RUST_MIN_STACK"]
        return sc

    def check(self, sc, lab):
        r = lab.run(sc)
        from .model import monitor
        return [p for p in monitor(r) if p[0] == "mutate"], [r]


# ------------------------------------------------------------------------------------------------
class C15(Prop):
    id = "C15"
    quick, thorough = 8000, 240000
    rule = ("wide and deep trees (to 300 levels, 1100 files) and files of every kind with the descriptor limit set to 24, compared with a run without limit; non-trivial: "
            "at least two files or twelve levels")

    def gen(self, r, pool, lab):
        c = r.random()
        w = gen.World(r, pool)
        top = w.place()
        if c < 0.45:
            w.fill(top, r.choice([2, 4, 8, 14, 25]), r.choice([1, 3, 9]), repeat=0.3)
        elif c < 0.72:
            gen.deep(w, top, r.choice([9, 11, 13, 20, 24, 25, 30, 60]))
        elif c < 0.98:
            gen.wide(w, top, r.choice([20, 24, 25, 26, 30, 50, 60]))
        elif c < 0.99:
            gen.wide(w, top, r.choice([300, 1100]))
        else:
            gen.deep(w, top, 300)
        sc = w.scenario(top)
        may_soften(r, sc, 0.25)
        sc.setdefault("cfg", {})["fdlimit"] = 24
        return sc

    def check(self, sc, lab):
        base = dict(sc, cfg={k: v for k, v in sc["cfg"].items() if k != "fdlimit"})
        ref, r = lab.run(base), lab.run(sc)
        bad = []
        if r.out != ref.out or r.ended != ref.ended:
            bad.append(("limit", "with 24 descriptors: %s, %d bytes of output; without limit: %s, %d bytes; stderr %r" % (
                r.ended, len(r.out), ref.ended, len(ref.out), r.errout[-160:])))
        for x in (r, ref):
            if x.max_fds > 24:
                bad.append(("fds", "%d descriptors open at once" % x.max_fds))
            if x.ok and x.open_fds:
                bad.append(("leak", "%d descriptors still open at the end" % x.open_fds))
            bad += overlap(sc, x)
        return bad, [r]

    def nontrivial(self, sc, rs):
        return len(file_reads(sc, rs[0])) >= 2 or sum(n["t"] == "D" for n in sc["nodes"]) > 12


# ------------------------------------------------------------------------------------------------
class C16(Prop):
    id = "C16"
    quick, thorough = 16000, 480000
    clauses = {"stepcap", "wait"}
    rule = ("symbolic link cycles, deep, wide, empty and unparsable trees, with errors that never go away and bursts of transient ones at every operation; non-trivial: a "
            "fault took effect or the tree has a link")

    def gen(self, r, pool, lab):
        prog = "check" if r.random() < 0.2 else "dump"
        sc, w = tree(r, pool, prog, size=r.choice([1, 2, 4, 7, 12]) if r.random() < 0.8 else None)
        c = r.random()
        if prog == "dump" and r.random() < 0.35:
            ds = [i for i, n in enumerate(sc["nodes"]) if n["t"] == "D"]
            for _ in range(r.choice([1, 2, 3])):
                d = r.choice(ds)
                w.add("L", d, w.free(d, ["loop", "a", "b.elm", "self.elm", "l1", "l2.elm"]), d=r.choice([".", "..", "self.elm", "l1", "l2.elm", "loop", "a/..", "/", "b.elm", "l1/l1/l1"]))
        supplied(r, sc, lab, 0.1)
        if c < 0.2:
            return may_soften(r, sc, 0.5)
        if r.random() < 0.5:
            soften(r, sc)
        ref = lab.run({k: v for k, v in sc.items() if k != "faults"})
        for _ in range(r.choice([1, 1, 2])):
            f = op_fault(r, ref, ["open", "read", "stat", "lstat", "fstat", "opendir", "readdir", "closedir", "close", "out", "err", "readlink"])
            if f:
                f["rep"] = r.choice([1, 3, 10 ** 6, 10 ** 6, 10 ** 6])
                if f["op"] in ("out", "read") and r.random() < 0.15:
                    f["fx"] = "zero"
                sc.setdefault("faults", []).append(f)
        if r.random() < 0.2:
            sc.setdefault("faults", []).append({"op": r.choice(["read", "out", "open"]), "nth": 1, "fx": "errno", "arg": E["EINTR"], "rep": r.choice([10, 1000])})
        if r.random() < 0.2:
            f = node_fault(r, sc)
            if f:
                sc.setdefault("nf", []).append(f)
        if r.random() < 0.1 and ref.mallocs:
            sc.setdefault("faults", []).append({"op": "malloc", "nth": r.randrange(1, ref.mallocs + 1), "fx": "errno", "arg": 12, "rep": 10 ** 9})
        return sc

    def check(self, sc, lab):
        run = dict(sc, cfg=dict(sc.get("cfg", {}), stepcap=300000 + 200 * total(sc) + 100 * len(sc["nodes"])))
        r = lab.run(run)
        from .model import monitor
        bad = [p for p in monitor(r) if p[0] == "wait"]
        if (r.code in (250, 251) or r.signal == 24) and not in_runtime(r):
            bad.append(("stepcap", "does not end: %d steps" % r.steps))
        elif r.steps > step_bound(sc, r) + 2 * r.fault_fired:
            bad.append(("steps", "%d steps for %d entries, %d bytes" % (r.steps, len(sc["nodes"]), total(sc))))
        else:
            n = r.steps - sum(r.op_count.get(k, 0) for k in ("read", "out", "err"))
            if n > 2500 + 60 * len(sc["nodes"]) + 2 * r.fault_fired:
                bad.append(("steps", "%d operations other than reads and writes for %d entries" % (n, len(sc["nodes"]))))
        return bad, [r]

    def nontrivial(self, sc, rs):
        return rs[0].fault_fired > 0 or any(n["t"] == "L" for n in sc["nodes"])


# ------------------------------------------------------------------------------------------------
def damaged(r, pool, limit=6000):
    """a stored source after an accident of the storage; brackets do not nest deeper than people write them"""
    if r.random() < 0.018:
        return gen.flat(r)
    for _ in range(30):
        if r.random() < 0.04:
            e = gen.bulky(r, gen.damage(r, Gen(r).program(1).bytes, []) or b"x", 60000)
            if gen.nesting(b(e["d"])) <= 7:
                return dict(e, k="damaged")
        e = known(Gen(r).program(r.choice([1, 2, 3]))) if r.random() < 0.5 else pool.pick(r) if r.random() < 0.7 else gen.hostile(r)
        d = b(e["d"])
        if len(d) > limit:
            continue
        if e["k"] != "hostile" or r.random() < 0.5:
            d = gen.damage(r, d, [b(pool.entry(k)["d"])[:limit] for k in range(3)])
        if len(d) <= limit and gen.nesting(d) <= 7:
            return {"d": L1(d), "tr": None, "k": "damaged"}
    return known(Gen(r).program(1))


class C25(Prop):
    id = "C25"
    quick, thorough = 16000, 400000
    rule = ("trees and single files in which the storage has damaged some files (blocks lost, zeroed, repeated, exchanged, misdirected from other files, flipped bits, "
            "torn tails); non-trivial: there is a damaged file")

    def gen(self, r, pool, lab):
        w = gen.World(r, pool)
        top = w.place()
        if r.random() < 0.4:
            i = w.elm(top, damaged(r, pool))
            sc = w.scenario(i, "dump")
        else:
            w.fill(top, r.choice([0, 1, 2, 3]), 2, {"program", "bad", "empty", "blank"})
            for _ in range(r.choice([1, 1, 2, 3])):
                w.elm(top, damaged(r, pool))
            sc = w.scenario(top, "dump")
        return may_soften(r, sc, 0.25)

    def check(self, sc, lab):
        r = lab.run(sc)
        bad = strict_output(sc, r, lab)
        if r.code in (250, 251) or r.signal == 24:
            bad.insert(0, ("stepcap", "does not end"))
        for n in sc["nodes"]:
            if n["t"] == "F" and not n.get("tr") and valid_utf8(b(n.get("d", ""))):
                ok, out = lab.alone("check", n.get("d", ""))
                if not ok:
                    bad.append(("check", "elm-parser-check fails on %r" % b(n.get("d", ""))[:80]))
                ok, out = lab.alone("dump", n.get("d", ""))
                if ok and not (out == b"[]\n" or out.startswith(b"[\n") and out.endswith(b"\n]\n") or out.startswith((b"Error", b"Failure", b"Incomplete"))):
                    bad.append(("form", "the report of %r is neither a tree nor a parse error: %r" % (b(n.get("d", ""))[:80], out[:80])))
        return bad, [r]

    def nontrivial(self, sc, rs):
        return any(n["t"] == "F" and not n.get("tr") and n.get("d") for n in sc["nodes"])


# ------------------------------------------------------------------------------------------------
class C26(Prop):
    id = "C26"
    quick, thorough = 7000, 210000
    rule = ("the same tree dumped in full and in quiet mode, and its files given to elm-parser-check, each run under transient faults and an environment of its own; "
            "non-trivial: at least one file")

    def gen(self, r, pool, lab):
        w = gen.World(r, pool)
        top = w.place()
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            c = r.random()
            e = gen.imports_file(r, r.choice([1, 2, 3, 6])) if c < 0.25 else damaged(r, pool) if c < 0.5 else gen.hostile(r) if c < 0.65 else pool.pick(r)
            if c < 0.1:
                d = gen.damage(r, b(e["d"]), [])
                e = {"d": L1(d), "tr": None} if gen.nesting(d) <= 7 else e
            w.elm(top, e)
        sc = w.scenario(top, "dump", False)
        sc["soft"] = []
        for _ in range(3):
            x = {"nodes": sc["nodes"]}
            if r.random() < 0.5:
                x["nodes"] = [dict(n) for n in sc["nodes"]]
                soften(r, x)
                x["sizes"] = [n.get("size", -1) for n in x["nodes"]]
            del x["nodes"]
            sc["soft"].append(x)
        return sc

    def under(self, sc, k, **kw):
        x = {key: v for key, v in sc.items() if key != "soft"}
        soft = dict(sc["soft"][k]) if k < len(sc.get("soft", [])) else {}
        sizes = soft.pop("sizes", None)
        if sizes and len(sizes) == len(sc["nodes"]):
            x["nodes"] = [dict(n, size=s) if s >= 0 else n for n, s in zip(sc["nodes"], sizes)]
        x.update(soft)
        x.update(kw)
        return x

    def check(self, sc, lab):
        paths = [a for a in sc["args"] if a not in ("-q", "--quiet")]
        full = lab.run(self.under(sc, 0, args=paths))
        quiet = lab.run(self.under(sc, 1, args=["-q"] + paths))
        bad = []
        f, q = file_reads(sc, full), file_reads(sc, quiet)
        if full.ended != quiet.ended or [x.path for x in f] != [x.path for x in q]:
            return [("modes", "in full %s with %d files, quiet %s with %d files" % (full.ended, len(f), quiet.ended, len(q)))], [full, quiet]
        marks = [x.out_at_read for x in f] + [len(full.out)]
        parts = [full.out[a:z] for a, z in zip(marks, marks[1:])] if None not in marks else []
        lines = [x.out_at_read for x in q] + [len(quiet.out)]
        words_ = [quiet.out[a:z] for a, z in zip(lines, lines[1:])] if None not in lines else []
        if len(parts) != len(words_) or len(parts) != len(f):
            return bad, [full, quiet]
        for k, (x, rep, line) in enumerate(zip(f, parts, words_)):
            tree = rep.startswith(b"[")
            if line.endswith(b" parsed successfully\n") != tree or not tree and not line.endswith(b" failed to parse\n"):
                bad.append(("modes", "%r: in full %r, quiet %r" % (x.path, rep[:60], line[-60:])))
            if x.path.startswith(b"/") or not sc.get("cwd"):
                c = lab.run(self.under(sc, 2, prog="check", args=[L1(x.path)])) if valid_utf8(x.path) else None
            else:
                c = lab.run(self.under(sc, 2, prog="check", args=[L1(x.path)])) if valid_utf8(x.path) and not x.path.startswith(b"-") else None
            if c is None:
                continue
            if not c.ok:
                bad.append(("tools", "elm-parser-check ends with %s on %r, which elm-parser-dump reports" % (c.ended, x.path)))
            elif tree and c.out != exposed(rep):
                bad.append(("names", "%r: the tree exposes %r, elm-parser-check prints %r" % (x.path, diff_at(exposed(rep), c.out), diff_at(c.out, exposed(rep)))))
            elif not tree and c.out.startswith(b"["):
                bad.append(("tools", "%r: elm-parser-dump reports a failure, elm-parser-check prints %r" % (x.path, c.out[:60])))
        return bad, [full, quiet]

    def nontrivial(self, sc, rs):
        return len(file_reads(sc, rs[0])) >= 1


# ------------------------------------------------------------------------------------------------
class C27(Prop):
    id = "C27"
    quick, thorough = 1400, 42000
    block = 20
    rule = ("many files of every kind in one run, with the heap limited to what the largest of them needs alone plus an allowance per entry, compared with the run without "
            "limit; non-trivial: at least twenty files")

    def gen(self, r, pool, lab):
        w = gen.World(r, pool)
        top = w.place()
        kinds = r.choice([None, {"program"}, {"program"}, {"bad", "odd"}, {"hostile", "program"}])
        es = [e for e in (pool.pick(r, kinds) for _ in range(r.choice([1, 2, 4, 8]))) if len(e["d"]) < 20000] or [pool.cheap(r)]
        if r.random() < 0.6:
            es.append(gen.comment_file(r, r.choice([2000, 5000, 10000])))
        if r.random() < 0.3:
            es.append({"d": "x = " + "1" * r.choice([1000, 5000]) + r.choice([" +", "\n\n%"]), "tr": {"ok": False}})
        if r.random() < 0.3:
            es = es[-1:]
        dirs = [top]
        count = r.choice([20, 40, 60, 90])
        each = lambda k, d: d
        c = r.random()
        if c < 0.25:                                       # no two alike in anything: what is remembered of each adds up
            n = r.choice([1, 3, 10, 40]) if c < 0.17 else words.near(r, 3000, 60000, 20000) // 9
            es = [{"d": gen.distinct(r, n)} for _ in range(r.choice([1, 1, 2]))]
            each = lambda k, d: d.replace("uq00000", "uq%05d" % k)
        elif r.random() < 0.15:                              # alike and large: what stays of one file counts against the next
            n, count = words.near(r, 30000, 400000, 100000), r.choice([4, 20, 24])
            ch = r.choice("x \n1%\u00e9")
            es = [r.choice([{"d": L1(("%" + ch * (n // len(ch.encode()))).encode())}, {"d": L1((ch * (n // len(ch.encode())) + "%").encode())},
                            {"d": "x = 1\n\n" + "%" * n}, {"d": "%" * (n - 1) + "\xff"} if count == 4 else gen.comment_file(r, n // 4)])]
            w = gen.World(r, pool)
            top = w.place()
            dirs = [top]
        for k in range(count):
            if r.random() < 0.06:
                dirs.append(w.dir(r.choice(dirs), "d%d" % k))
            e = r.choice(es)
            d = e["d"]
            if e.get("tr") and e["tr"].get("ok") and r.random() < 0.5 and len(d) < 25000:
                d = d.rstrip("\n") + "\n\nu%d = %d\n" % (k, k)      # no two files alike
            w.add("F", r.choice(dirs), "F%d.elm" % k, d=each(k, d))
        sc = w.scenario(top)
        return may_soften(r, sc, 0.15)

    def check(self, sc, lab):
        tree = Tree(sc)
        allow = 32768
        for i in range(len(sc["nodes"])):
            allow += 512 + len(tree.name(i))
        most = 0
        q = is_quiet(sc)
        rep = {}                                           # of the variants of one content the longest stands for all
        for d, size in {(n.get("d", ""), n.get("size")) for n in sc["nodes"] if n["t"] == "F"}:
            k = re.sub(r"uq\d{5}", "uq", re.sub(r"\n\nu\d+ = \d+\n$", "", d)), size
            rep[k] = max(rep.get(k, ""), d, key=lambda x: (len(x), x))
        for (_, size), d in sorted(rep.items(), key=repr):
            most = max(most, peak_alone(lab, d, q, size))
        size = max([n.get("size", 0) for n in sc["nodes"]] + [0])
        ref = lab.run(sc)
        limit = most + allow + size
        r = lab.run(dict(sc, cfg=dict(sc.get("cfg", {}), memlimit=limit)))
        bad = []
        if r.out != ref.out or r.ended != ref.ended:
            bad.append(("memory", "needs more than %d bytes of heap (the largest file alone: %d): %s instead of %s, %d bytes of output instead of %d; without limit %d bytes" % (
                limit, most, r.ended, ref.ended, len(r.out), len(ref.out), ref.peak)))
        return bad, [r]

    def nontrivial(self, sc, rs):
        return len(file_reads(sc, rs[0])) >= 20


def peak_alone(lab, content, quiet, size=None):
    key = ("peak", content, quiet, size)
    if key not in lab.refs:
        if len(lab.refs) > 4000:
            lab.refs.clear()
        r = lab.run({"prog": "dump", "args": (["-q"] if quiet else []) + ["/"], "nodes": [{"t": "D"}, dict({"t": "F", "n": "f.elm", "d": content}, **({} if size is None else {"size": size}))]})
        lab.refs[key] = r.peak
    return lab.refs[key]


ALL = {c.id: c() for c in (C25, C26, C27, C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16)}
