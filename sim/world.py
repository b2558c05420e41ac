"""Scenarios, the connection to the simulated kernel, and the decoded history of a run.

A scenario is a plain JSON value and the only input of a run: same scenario, same code, same run.
Byte strings are kept as latin-1 text so that a scenario can be written to a file as it is.
"""
import ctypes, os, struct, subprocess
from . import build

LIBC = ctypes.CDLL(None)

OPS = ["", "open", "read", "close", "stat", "fstat", "opendir", "readdir", "closedir", "out", "err", "readlink", "realpath",
       "getcwd", "lseek", "access", "malloc", "mutate", "exec", "sleep", "clock", "random", "getenv", "stdin", "sys", "mark",
       "switch", "stepcap", "deadlock", "event", "mmap", "result", "thread", "waits", "lstat", "exit", "chdir", "proc"]
OPN = {n: i for i, n in enumerate(OPS) if n}
FX = {"errno": 1, "short": 2, "zero": 3, "flip": 4, "kill": 5, "delay": 6}
FXN = {v: k for k, v in FX.items()}
NK = {"stat": 0, "open": 1, "read": 2, "opendir": 3, "readdir": 4, "lstat": 5}
MU = {"unlink": 1, "set": 2, "trunc": 3, "append": 4, "linkin": 5, "rename": 6, "swaptype": 7, "nodefault": 8, "replace": 9}
CF = {"stepcap": 1, "fdlimit": 2, "snapshot": 3, "clock": 4, "jump": 5, "pid": 6, "cpus": 7, "seed": 8, "heap": 9, "tty": 10,
      "srandom": 11, "sprob": 12, "sseed": 13, "lat": 14, "dots": 15, "fdbase": 16, "memlimit": 17, "maxalloc": 18, "shot": 19, "own": 20, "uid": 21}
E = {"EPERM": 1, "ENOENT": 2, "EINTR": 4, "EIO": 5, "ENXIO": 6, "EBADF": 9, "EAGAIN": 11, "ENOMEM": 12, "EACCES": 13, "EBUSY": 16,
     "ENODEV": 19, "ENOTDIR": 20, "EISDIR": 21, "EINVAL": 22, "ENFILE": 23, "EMFILE": 24, "EFBIG": 27, "ENOSPC": 28, "EPIPE": 32,
     "ENAMETOOLONG": 36, "ETXTBSY": 26, "EROFS": 30, "EDEADLK": 35, "ENODATA": 61, "ENOLINK": 67, "EBADMSG": 74, "ENOTCONN": 107, "EHOSTDOWN": 112, "EUCLEAN": 117,
     "EREMOTEIO": 121, "ENOMEDIUM": 123, "ECANCELED": 125, "ELOOP": 40, "EOVERFLOW": 75, "ESTALE": 116, "EDQUOT": 122, "ETIMEDOUT": 110}
ENAME = {v: k for k, v in E.items()}
REC = struct.Struct("<IHBBiqiIII")
HEAD_FIELDS = ["loglen", "outlen", "errlen", "steps", "fault_fired", "mut_fired", "sim_ns", "mallocs", "max_fds", "open_fds",
               "sched_points", "switches", "live", "peak", "lost", "hot"]
BASE_ENV = ["PATH=/usr/bin:/bin", "HOME=/home/u", "LANG=C.UTF-8", "RUST_BACKTRACE=0"]
I64 = (1 << 64) - 1


def b(s):
    return s.encode("latin-1") if isinstance(s, str) else s


def encode(sc):
    out = []
    p = struct.pack

    def raw(s):
        s = b(s)
        out.append(p("<I", len(s)))
        out.append(s)
    for a in sc["args"]:
        out.append(b"A"); raw(a)
    if sc.get("arg0"):
        out.append(b"0"); raw(sc["arg0"])
    for e in sc.get("env", BASE_ENV):
        out.append(b"E"); raw(e)
    for n in sc["nodes"]:
        out.append(b"N" + n["t"].encode() + p("<I", n.get("p", 0)))
        raw(n.get("n", ""))
        raw(n.get("d", ""))
        out.append(p("<IQqq", n.get("f", 0) | n.get("dev", 0) << 8 | (n["mode"] | 0x1000 if "mode" in n else 0) << 16, n.get("ino", 0), n.get("mtime", 1500000000), n.get("size", -1)))
    for f in sc.get("nf", []):
        out.append(b"n" + p("<IBIQI", f["node"], NK[f["kind"]], f["err"], f.get("at", 0), f.get("times", 0)))
    out.append(b"W" + p("<I", sc.get("cwd", 0)))
    for key, tag in (("rpat", b"R"), ("wpat", b"T")):
        if sc.get(key):
            out.append(tag + p("<I%di" % len(sc[key]), len(sc[key]), *sc[key]))
    for f in sc.get("faults", []):
        op = 0 if f["op"] == "any" else OPN[f["op"]]
        out.append(b"F" + p("<BIBqI", op, f["nth"], FX[f["fx"]], f.get("arg", 0), f.get("rep", 1)))
    for m in sorted(sc.get("muts", []), key=lambda m: m["at"]):
        out.append(b"M" + p("<IBIq", m["at"], MU[m["do"]], m["node"], m.get("arg", 0)))
        raw(m.get("d", ""))
    if len(sc["nodes"]) > 5000 and "stepcap" not in sc.get("cfg", {}):
        out.append(b"C" + p("<BQ", CF["stepcap"], (1 << 20) + 100 * len(sc["nodes"])))
    for k, v in sc.get("cfg", {}).items():
        out.append(b"C" + p("<BQ", CF[k], v & I64))
    if sc.get("pre"):
        out.append(b"P" + p("<I", len(sc["pre"])) + b"".join(p("<QI", a, t) for a, t in sc["pre"]))
    return b"".join(out)


class Ev:
    __slots__ = ("step", "op", "fx", "a", "ret", "err", "mallocs", "outlen", "data")

    def __repr__(self):
        d = self.data
        return "%d %s%s a=%d ret=%d%s out=%d%s" % (
            self.step, self.op, "!" + FXN[self.fx] if self.fx in FXN and self.op != "event" else "", self.a, self.ret,
            " " + ENAME.get(self.err, str(self.err)) if self.err and self.op not in ("switch",) else "", self.outlen,
            " %r" % d[:60] if d else "")


class Result:
    def __init__(self, status, head, log, out, err):
        self.signal = status & 0x7F
        self.code = (status >> 8) & 0xFF if not self.signal else None
        vals = struct.unpack("<%dQ" % len(HEAD_FIELDS), head[:8 * len(HEAD_FIELDS)])
        for k, v in zip(HEAD_FIELDS, vals):
            setattr(self, k, v)
        counts = struct.unpack("<%dQ" % ((len(head) - 8 * len(HEAD_FIELDS)) // 8), head[8 * len(HEAD_FIELDS):])
        self.op_count = {OPS[i]: c for i, c in enumerate(counts) if i < len(OPS) and OPS[i] and c}
        self.rawlog, self.out, self.errout = log, out, err
        self._events = None

    @property
    def events(self):
        if self._events is None:
            evs, o, log, n = [], 0, self.rawlog, len(self.rawlog)
            size = REC.size
            while o < n:
                e = Ev()
                e.step, op, e.fx, _, e.a, e.ret, e.err, e.mallocs, e.outlen, dl = REC.unpack_from(log, o)
                o += size
                e.op = OPS[op] if e.fx != 6 or op == 29 else "delay"
                e.data = log[o:o + dl]
                o += dl
                evs.append(e)
            self._events = evs
        return self._events

    @property
    def ok(self):
        return self.code == 0

    @property
    def ended(self):
        return "signal %d" % self.signal if self.signal else "exit %d" % self.code

    def digest(self):
        import hashlib
        h = hashlib.blake2b(digest_size=16)
        for x in (self.rawlog, self.out, self.errout, self.ended.encode()):
            h.update(struct.pack("<Q", len(x)))
            h.update(x)
        return h.hexdigest()


class Server:
    """One running fork server for one of the binaries."""

    def __init__(self, prog):
        self.prog = prog
        a, bfd = os.pipe()
        c, d = os.pipe()
        self.w, self.r = bfd, c

        def pre():
            # the server's two descriptors get fixed numbers; move them out of the way first
            x, y = os.dup(a), os.dup(d)
            os.dup2(x, 198)
            os.dup2(y, 199)
            LIBC.personality(0x0040000)  # ADDR_NO_RANDOMIZE
        env = {"LD_PRELOAD": build.KERNEL, "SIM_SERVER": "1", "PATH": "/usr/bin:/bin"}
        self.p = subprocess.Popen([build.BINS[prog]] + ["x"] * 63, env=env, preexec_fn=pre, close_fds=False,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(a)
        os.close(d)
        for fd in (self.w, self.r):
            os.set_inheritable(fd, False)
        hello = self._read(4)
        if struct.unpack("<I", hello)[0] != 0x51B1E550:
            raise RuntimeError("simulated kernel did not start")

    def _read(self, n):
        parts = []
        while n:
            d = os.read(self.r, min(n, 1 << 20))
            if not d:
                raise RuntimeError("simulated kernel for %s died" % self.prog)
            parts.append(d)
            n -= len(d)
        return b"".join(parts)

    def run(self, blob, cpu=20):
        data = struct.pack("<II", len(blob), cpu) + blob
        view = memoryview(data)
        while view:
            k = os.write(self.w, view)
            view = view[k:]
        st, hl, ll, ol, el = struct.unpack("<5I", self._read(20))
        return Result(st, self._read(hl), self._read(ll), self._read(ol), self._read(el))

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Overflow(Exception):
    """the history of a run is longer than the simulator can hold: the run is not judged"""


class Lab:
    """The servers of one worker, started on demand, and the cache of fault-free reference runs."""

    def __init__(self):
        self.servers = {}
        self.refs = {}
        self.runs = 0
        self.totals = {"steps": 0, "sim_ns": 0, "faults": 0, "muts": 0, "mallocs": 0, "sched_points": 0, "switches": 0, "hot": 0}

    def server(self, prog):
        if prog not in self.servers:
            self.servers[prog] = Server(prog)
        return self.servers[prog]

    def run(self, sc):
        r = self.server(sc["prog"]).run(encode(sc), 20 + len(sc["nodes"]) // 500)
        if r.lost and r.code != 250:
            raise Overflow("event log overflow")
        if r.code in (248, 249):
            raise RuntimeError("simulated kernel gave up: exit %d" % r.code)
        self.runs += 1
        t = self.totals
        t["steps"] += r.steps; t["sim_ns"] += r.sim_ns; t["faults"] += r.fault_fired; t["muts"] += r.mut_fired
        t["mallocs"] += r.mallocs; t["sched_points"] += r.sched_points; t["switches"] += r.switches; t["hot"] += r.hot
        return r

    def alone(self, prog, content, quiet=False):
        """(exit ok, stdout) of the tool on this content in a file of its own, without any fault."""
        content = b(content)
        key = (prog, content, quiet)
        if key not in self.refs:
            if len(self.refs) > 4000:
                self.refs.clear()
            sc = {"prog": prog, "args": (["-q"] if quiet else []) + ["/f.elm"],
                  "nodes": [{"t": "D"}, {"t": "F", "n": "f.elm", "d": content}]}
            r = self.run(sc)
            self.refs[key] = (r.ok, r.out)
        return self.refs[key]

    def parsed(self, content):
        """what the library's parser returns for this content, called directly: (does it parse, printed form); None: not to be had"""
        content = b(content)
        key = ("parsed", content)
        if key not in self.refs:
            if len(self.refs) > 4000:
                self.refs.clear()
            res = None
            if build.have("threads"):
                r = self.run({"prog": "threads", "args": ["plain", "0"],
                              "nodes": [{"t": "D"}, {"t": "D", "n": "src"}, {"t": "F", "p": 1, "n": "0", "d": content}]})
                raw = b"".join(e.data for e in r.events if e.op == "result")
                if r.ok and raw.startswith(b"== 0 0 0 "):
                    head, _, rest = raw.partition(b"\n")
                    kind, _, text = rest[:int(head.split()[4])].partition(b"\n")
                    if kind.startswith(b"OK ") or kind == b"ERR":
                        res = (kind != b"ERR", text + b"\n")
            self.refs[key] = res
        return self.refs[key]

    def close(self):
        for s in self.servers.values():
            s.close()
